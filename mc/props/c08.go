package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// C08: every message sent is framed as the protocol demands.

var twelve = regexp.MustCompile(`^[0-9]{12}$`)
var plainNumber = regexp.MustCompile(`^(0|[1-9][0-9]*)$`)

// segmentVersions are the versions of the framing segments by protocol.
var frameVersions = map[int]map[string]int{
	220: {"HNHBK": 3, "HNHBS": 1, "HNVSK": 2, "HNVSD": 1, "HNSHK": 3, "HNSHA": 1},
	300: {"HNHBK": 3, "HNHBS": 1, "HNVSK": 3, "HNVSD": 1, "HNSHK": 4, "HNSHA": 2},
}

// misframed reports what is wrong with the frame of a client message.
func misframed(raw string, m *wire.Message, version int, signed, encrypted bool) string {
	h := m.Header
	if n := len(raw); !twelve.MatchString(h.E(1, 0)) || m.Size != n {
		return fmt.Sprintf("states the size %s and has %d bytes", h.E(1, 0), n)
	}
	if h.E(2, 0) != strconv.Itoa(version) {
		return fmt.Sprintf("states protocol version %q in a dialog of %d", h.E(2, 0), version)
	}
	if len(h.DE) > 5 && h.Group(5) != "" {
		return fmt.Sprintf("refers to another message: %q", h.Raw)
	}
	if h.Num != 1 || h.Off != 0 {
		return fmt.Sprintf("the header has number %d", h.Num)
	}
	if !plainNumber.MatchString(h.E(4, 0)) || h.E(4, 0) != m.End.E(1, 0) {
		return fmt.Sprintf("the header has message number %q and the trailer %q", h.E(4, 0), m.End.E(1, 0))
	}
	if len(m.End.DE) != 2 {
		return fmt.Sprintf("the trailer is %q", m.End.Raw)
	}
	for i, s := range m.All {
		if s.Num != i+1 {
			return fmt.Sprintf("segment %d (%s) carries number %d", i+1, s.ID, s.Num)
		}
	}
	segs := append([]*wire.Seg(nil), m.Outer...)
	segs = append(segs, m.All[1:len(m.All)-1]...)
	for _, s := range segs {
		if v, ok := frameVersions[version][s.ID]; ok && s.Ver != v {
			return fmt.Sprintf("%s has version %d", s.ID, s.Ver)
		}
		if n := len(s.DE[0]); n != 3 {
			return fmt.Sprintf("the header of %q has %d elements", s.Raw, n)
		}
		if last := s.DE[len(s.DE)-1]; len(last) == 1 && last[0].S == "" && !last[0].Bin {
			return fmt.Sprintf("%q ends with an empty element", s.Raw)
		}
	}
	if encrypted != m.Encrypted {
		return fmt.Sprintf("encrypted: %v", m.Encrypted)
	}
	if encrypted {
		if m.CryptHead.Num != 998 || m.Outer[2].Num != 999 {
			return fmt.Sprintf("the encryption segments have numbers %d and %d", m.CryptHead.Num, m.Outer[2].Num)
		}
		if len(m.Outer) != 4 {
			return fmt.Sprintf("has %d outer segments", len(m.Outer))
		}
	}
	if signed != (m.SigHead != nil) || signed != (m.SigEnd != nil) {
		return fmt.Sprintf("signature header present: %v, trailer present: %v", m.SigHead != nil, m.SigEnd != nil)
	}
	for _, s := range m.Inner {
		switch s.ID {
		case "HNSHK", "HNSHA", "HNVSK", "HNVSD", "HNHBK", "HNHBS":
			return fmt.Sprintf("contains %s between the orders", s.ID)
		}
	}
	if signed {
		a, b := m.SigHead.E(2, 0), m.SigEnd.E(1, 0)
		if version == 300 {
			a = m.SigHead.E(3, 0)
		}
		if a != b || a == "" || len(a) > 14 {
			return fmt.Sprintf("the signature header has control reference %q, its trailer %q", a, b)
		}
	}
	return ""
}

// job is an order a caller may put into a message.
type job struct {
	id   string
	ver  int
	make func(hv segment.HBCIVersion, text string) segment.ClientSegment
}

func jobs() []job {
	acct := func(t string) domain.AccountConnection {
		return domain.AccountConnection{AccountID: t, CountryCode: 280, BankID: wBank}
	}
	iacct := func(t string) domain.InternationalAccountConnection {
		return domain.InternationalAccountConnection{IBAN: "DE02100000000000000101", BIC: "TESTDEFFXXX", AccountID: t, BankID: domain.BankID{CountryCode: 280, ID: wBank}}
	}
	from, to := dayOf(2015, 1, 2), dayOf(2015, 3, 4)
	type hv = segment.HBCIVersion
	kaz := func(s *segment.AccountTransactionRequestSegment, t string) segment.ClientSegment {
		s.SetContinuationReference(t)
		return s
	}
	key := func(t string) domain.KeyName {
		return domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: wBank}, UserID: t, KeyType: "V", KeyNumber: 1, KeyVersion: 2}
	}
	return []job{
		{"HKSAL", 5, func(_ hv, t string) segment.ClientSegment { return segment.NewAccountBalanceRequestV5(acct(t), true) }},
		{"HKSAL", 6, func(_ hv, t string) segment.ClientSegment { return segment.NewAccountBalanceRequestV6(acct(t), false) }},
		{"HKSAL", 7, func(_ hv, t string) segment.ClientSegment { return segment.NewAccountBalanceRequestV7(iacct(t), true) }},
		{"HKSAL", 8, func(_ hv, t string) segment.ClientSegment { return segment.NewAccountBalanceRequestV8(iacct(t), true) }},
		{"HKKAZ", 5, func(_ hv, t string) segment.ClientSegment {
			return kaz(segment.NewAccountTransactionRequestSegmentV5(acct("101"), true), t)
		}},
		{"HKKAZ", 6, func(_ hv, t string) segment.ClientSegment {
			return kaz(segment.NewAccountTransactionRequestSegmentV6(acct(t), true), "")
		}},
		{"HKKAZ", 7, func(_ hv, t string) segment.ClientSegment {
			return kaz(segment.NewAccountTransactionRequestSegmentV7(iacct("101"), false), t)
		}},
		{"HKPRO", 3, func(_ hv, t string) segment.ClientSegment {
			return segment.NewStatusProtocolRequestV3(from, to, 10, t)
		}},
		{"HKPRO", 4, func(_ hv, t string) segment.ClientSegment {
			return segment.NewStatusProtocolRequestV4(from, to, 10, t)
		}},
		{"HKKIF", 1, func(_ hv, t string) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV1(acct(t), true)
		}},
		{"HKKIF", 6, func(_ hv, t string) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV6(iacct(t), true)
		}},
		{"HKKOM", 3, func(_ hv, t string) segment.ClientSegment {
			b := domain.BankID{CountryCode: 280, ID: wBank}
			return segment.NewCommunicationAccessRequestSegment(b, b, 5, t)
		}},
		{"HKTAN", 1, func(_ hv, t string) segment.ClientSegment { return segment.NewTanRequestProcess2(t, false) }},
		{"HKTAN", 6, func(v hv, t string) segment.ClientSegment { return segment.NewTanProcess4RequestSegmentV6("HKSAL") }},
		{"HKISA", 2, func(_ hv, t string) segment.ClientSegment { return segment.NewPublicKeyRequestSegment(7, key(t)) }},
	}
}

func frameTexts() []string {
	return []string{"101", "", "a+b:c'd?e@f", "@3@a'b", "ÄÖÜßé", "x?+'", strings.Repeat("z", 30), strings.Repeat("'", 30), strings.Repeat("ü?", 15), "\u00ff"}
}

// crowd is a message of many parts: of one kind, or of all in turn.
type crowd struct{ n, from, step int }

func chooseCrowd(c *engine.Ctx, most, kinds int, sizes ...int) {
	w := &crowd{step: c.Choose(2, "mixed")}
	if w.step == 0 {
		w.from = c.Choose(kinds, "kind")
	}
	w.n = 1 + c.Choose(most+len(sizes), "count")
	if w.n > most {
		w.n = sizes[w.n-most-1]
	}
	c.Tag = w
}

// chooseJobs chooses up to n orders.
func chooseJobs(c *engine.Ctx, n int, hv segment.HBCIVersion, l []string) (segs []segment.ClientSegment, ids []string) {
	js := jobs()
	if w, ok := c.Tag.(*crowd); ok {
		for i := 0; i < w.n; i++ {
			j := js[(w.from+i*w.step)%len(js)]
			segs = append(segs, j.make(hv, l[0]))
			ids = append(ids, fmt.Sprintf("%s:%d", j.id, j.ver))
		}
		return
	}
	for i := 0; i < n; i++ {
		k := c.Choose(len(js)+1, "order")
		if k == len(js) {
			break
		}
		segs = append(segs, js[k].make(hv, l[c.Dev(len(l), "text")]))
		ids = append(ids, fmt.Sprintf("%s:%d", js[k].id, js[k].ver))
	}
	return
}

func c08(r *engine.Runner) {
	n := r.Pick(2, 2)
	devs := r.Pick(1, 2)
	texts := frameTexts()[:r.Pick(6, 10)]
	dialogs := func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		hv := segment.SupportedHBCIVersions[version]
		anon := c.Bool("anonymous")
		segs, ids := chooseJobs(c, n, hv, texts)
		if len(segs) == 0 {
			// an empty order list is not a message
			j := jobs()[0]
			segs, ids = append(segs, j.make(hv, "101")), append(ids, "HKSAL:5")
		}
		pick := func(label, usual string) string {
			l := append([]string{usual}, texts[1:]...)
			if t := l[c.Dev(len(l), label)]; t != "" {
				return t
			}
			return usual
		}
		user, code, pin := pick("user", wUser), pick("bank", wBank), pick("pin", "43210")
		product, dlg, sys := pick("product", "prod"), pick("dialog", "DLG1"), pick("system", "SYS1")
		c.State(fmt.Sprint(version, anon, ids, user, code, pin, product, dlg, sys))
		b := &bank.Bank{}
		enc := func(s string) string { l, _ := toLatin(s); return l }
		b.Answer = func(x *bank.Exchange, k int) bank.Reply {
			if x.Msg == nil {
				return bank.Reply{Err: fmt.Errorf("unparseable: %v", x.Err)}
			}
			body := []string{bank.OK()}
			id := x.Msg.DialogID
			switch x.Kind {
			case "sync":
				body = append(body, bank.SYN(version, enc(sys)))
				id = enc(dlg)
			case "init":
				id = enc(dlg)
			}
			return bank.Reply{Text: bank.Msg(x.Msg, version, id, body...)}
		}
		d := dialog.NewPinTanDialog(dialog.Config{
			BankID: domain.BankID{CountryCode: 280, ID: code}, HBCIURL: "https://bank.example/hbci", UserID: user,
			HBCIVersion: hv, ProductName: product, ProductVersion: "1.0", Transport: b,
		})
		d.SetPin(pin)
		var err error
		msg := message.NewHBCIMessage(hv, segs...)
		if p := engine.Guard(func() {
			if anon {
				_, err = d.SendAnonymousMessage(msg)
			} else {
				_, err = d.SendMessage(msg)
			}
		}); p != "" {
			c.Fail("panic", "sending %v: %s", ids, p)
		}
		c.Validated()
		kinds := ""
		for i, x := range b.Log {
			kinds += " " + x.Kind
			if x.Msg == nil {
				c.Fail("unparseable", "message %d cannot be read: %v: %q", i+1, x.Err, x.Raw)
			}
			if what := misframed(x.Raw, x.Msg, version, !anon, !anon); what != "" {
				c.Fail("frame", "the %s message %s: %q", x.Kind, what, x.Raw)
			}
			if !anon {
				if what := misdeclared(x.Msg, version); what != "" {
					c.Fail("procedures", "the %s message: %s: %q", x.Kind, what, x.Raw)
				}
			}
			if x.Kind == "order" {
				if got := x.Msg.IDs(); got != strings.Join(ids, " ") {
					c.Fail("orders", "orders %v are sent as %s", ids, got)
				}
			}
		}
		want := " sync end init order end"
		if anon {
			want = " init order end"
		}
		if err != nil || kinds != want {
			c.Fail("exchanges", "sending %v: exchanges%s, error %v", ids, kinds, err)
		}
	}
	r.Explore("dialogs", fmt.Sprintf("every list of up to %d of the 15 kinds of orders, sent signed and anonymously, in HBCI 2.2 and FinTS 3.0, the synchronisation, opening and end around them, at most %d unusual texts: in the orders, user, bank code, PIN, product, dialog and system identifiers", n, devs), devs, dialogs)

	depth, jobsN := r.Pick(3, 4), r.Pick(1, 2)
	mdevs := r.Pick(1, 1)
	messages := func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		hv := segment.SupportedHBCIVersions[version]
		segs, ids := chooseJobs(c, jobsN, hv, texts)
		m := message.NewBasicMessage(message.NewHBCIMessage(hv, segs...))
		num := []int{1, 10, 9999}[c.Dev(3, "number")]
		m.Header = segment.NewMessageHeaderSegment(-1, version, "DLG1", num)
		m.End = segment.NewMessageEndSegment(-1, num)
		signed := ""
		trace := ""
		judge := func(raw []byte, err error, what string, encrypted bool) {
			c.Between()
			c.Validated()
			if err != nil {
				c.Fail("error", "%s after%s: %v", what, trace, err)
			}
			x, perr := wire.ParseMessage(string(raw))
			if perr != nil {
				c.Fail("unparseable", "%s after%s gives %q: %v", what, trace, raw, perr)
			}
			if bad := misframed(string(raw), x, version, signed != "", encrypted); bad != "" {
				c.Fail("frame", "%s after%s: the message %s: %q", what, trace, bad, raw)
			}
			if got := x.IDs(); got != strings.Join(ids, " ") {
				c.Fail("orders", "%s after%s: orders %v are written as %s", what, trace, ids, got)
			}
			if x.Number != num || x.DialogID != "DLG1" {
				c.Fail("identity", "%s after%s: message %d of dialog %q instead of %d of DLG1", what, trace, x.Number, x.DialogID, num)
			}
			if signed != "" {
				who := x.SigEnd.E(3, 0)
				if who != signed {
					c.Fail("stale", "%s after%s: signed with PIN %q instead of %q", what, trace, who, signed)
				}
			}
		}
		p := engine.Guard(func() {
			numbered := false
			for i := 0; i < depth; i++ {
				steps := 6
				if !numbered {
					// a message is numbered, by hand or in signing, before anything is written
					steps = 3
				}
				switch k := c.Choose(steps, "step"); k {
				case 0:
					m.SetSegmentPositions()
					numbered = true
					trace += " numbering"
				case 1, 2:
					pin := []string{"11111", "2222222"}[k-1]
					key := domain.NewPinKey(pin, domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: wBank}, wUser, "S"))
					sm, err := m.Sign(message.NewPinTanSignatureProvider(key, "SYS1"))
					if err != nil {
						c.Fail("sign", "signing after%s: %v", trace, err)
					}
					signed = pin
					numbered = true
					trace += " signing(" + pin + ")"
					if c.Bool("write the signed message") {
						raw, err := sm.MarshalHBCI()
						judge(raw, err, "the signed message", false)
						trace += " writing it"
					}
				case 3:
					raw, err := m.MarshalHBCI()
					judge(raw, err, "writing", false)
					for i := range raw {
						// what was handed out belongs to the caller
						raw[i] = 'X'
					}
					trace += " writing"
				case 4:
					if err := m.SetSize(); err != nil {
						c.Fail("size", "measuring after%s: %v", trace, err)
					}
					trace += " measuring"
				case 5:
					key := domain.NewPinKey("33333", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: wBank}, wUser, "V"))
					em, err := m.Encrypt(message.NewPinTanCryptoProvider(key, "SYS1"))
					if err != nil {
						c.Fail("encrypt", "encrypting after%s: %v", trace, err)
					}
					raw, err := em.MarshalHBCI()
					judge(raw, err, "encrypting", true)
					raw2, err := em.MarshalHBCI()
					if string(raw) != string(raw2) {
						c.Fail("again", "encrypting after%s: written twice: %q and %q", trace, raw, raw2)
					}
					judge(raw2, err, "encrypting and writing twice", true)
					trace += " encrypting"
				}
				c.State(fmt.Sprint(version, ids, num, signed, trace))
			}
		})
		if p != "" {
			c.Fail("panic", "after%s: %s", trace, p)
		}
	}
	r.ExploreBetween("messages", fmt.Sprintf("every message of up to %d of 15 kinds of orders, every sequence of %d steps of signing with one of two keys, encrypting, numbering, measuring and writing; at most %d unusual texts", jobsN, depth, mdevs), mdevs, messages)
	most := r.Pick(40, 200)
	r.Explore("long dialogs", fmt.Sprintf("the dialogs of messages of every number of orders up to %d and of 99, 100, 256 and 500, of each kind or of all kinds in turn", most), 0, func(c *engine.Ctx) {
		chooseCrowd(c, most, len(jobs()), 99, 100, 256, 500)
		dialogs(c)
	})
	depth = 2
	r.Explore("long messages", fmt.Sprintf("messages of every number of orders up to %d and of 99, 100, 256 and 500, of each kind or of all kinds in turn, and every sequence of 2 steps as above", most), 0, func(c *engine.Ctx) {
		chooseCrowd(c, most, len(jobs()), 99, 100, 256, 500)
		messages(c)
	})
}

func init() { engine.Register("C08", c08) }

var (
	stamp      = regexp.MustCompile(`^1:(\d{8}):(\d{6})$`)
	procedures = map[int]map[string]map[int]string{ // the fixed elements of the security headers
		220: {
			"HNVSK": {1: "998", 2: "1", 5: "2:2:13:\x00\x00\x00\x00\x00\x00\x00\x00:5:1", 7: "0"},
			"HNSHK": {3: "1", 4: "1", 8: "1:999:1", 9: "6:10:16"},
		},
		300: {
			"HNVSK": {2: "998", 3: "1", 6: "2:2:13:\x00\x00\x00\x00\x00\x00\x00\x00:5:1", 8: "0"},
			"HNSHK": {4: "1", 5: "1", 9: "1:999:1", 10: "6:10:16"},
		},
	}
)

// misdeclared tells what is wrong about the procedures and times that the
// security headers of a PIN/TAN message declare.
func misdeclared(m *wire.Message, version int) string {
	for _, s := range []*wire.Seg{m.CryptHead, m.SigHead} {
		for i, want := range procedures[version][s.ID] {
			if got := s.Group(i); got != want {
				return fmt.Sprintf("element %d of %s is %q instead of %q", i, s.ID, got, want)
			}
		}
		at := map[string]int{"HNVSK": 4, "HNSHK": 7}[s.ID] + (version-220)/80
		t := stamp.FindStringSubmatch(s.Group(at))
		if t == nil {
			return fmt.Sprintf("element %d of %s is %q, not a date and time", at, s.ID, s.Group(at))
		}
		when, err := time.Parse("20060102150405", t[1]+t[2])
		if d := time.Since(when); err != nil || d < -36*time.Hour || d > 36*time.Hour {
			return fmt.Sprintf("%s states the time %q (%v)", s.ID, t[0], err)
		}
	}
	return ""
}
