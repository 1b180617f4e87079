package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// C09: requests say exactly what the caller asked for.

// texts are contents of an argument; the first is the usual one.
func texts(usual string) []string {
	return []string{usual, "", "0", "000", "?", "??", "'", "+", ":", "@", "a+b:c'd?e@f", "@3@a'b", "?'", "x?+", " y ", "ÄÖÜßé", "\u00ff", strings.Repeat("z", 30), "€", "\u0100x"}
}

// latin1 gives the bytes of a text in the bank's character set.
func toLatin(s string) (string, bool) {
	var b []byte
	for _, r := range s {
		if r > 255 {
			return "", false
		}
		b = append(b, byte(r))
	}
	return string(b), true
}

func zones() []*time.Location {
	return []*time.Location{time.UTC, time.FixedZone("E", 14*3600), time.FixedZone("W", -12*3600)}
}

// aDay chooses a point in time and the day it lies on.
func aDay(c *engine.Ctx, label string, y, m, d int) (time.Time, string) {
	if e, _ := c.Tag.(*every); e.of(label) {
		t := time.Date(1990, 1, 1+c.Choose(40177, label), 0, 0, 0, 0, time.UTC)
		return t, fmt.Sprintf("%04d%02d%02d", t.Year(), int(t.Month()), t.Day())
	}
	days := [][3]int{{y, m, d}, {1999, 12, 31}, {2000, 1, 1}, {2000, 2, 29}, {2099, 12, 31}, {2016, 10, 9}}
	k := days[c.Dev(len(days), label)]
	hour := []int{0, 23}[c.Dev(2, label+" hour")]
	z := zones()[c.Dev(3, label+" zone")]
	return time.Date(k[0], time.Month(k[1]), k[2], hour, hour, hour, 0, z), fmt.Sprintf("%04d%02d%02d", k[0], k[1], k[2])
}

// every asks for all values of one number or day instead of a few.
type every struct {
	label string
	nth   int // which of the values of that name
	seen  int
}

func (e *every) of(label string) bool {
	if e == nil || e.label != label {
		return false
	}
	e.seen++
	return e.seen == e.nth+1
}

// number is a usual number or an unusual one, or, if asked for, every number
// up to max.
func number(c *engine.Ctx, label string, max int, usual ...int) int {
	if e, _ := c.Tag.(*every); e.of(label) {
		return c.Choose(max+1, label)
	}
	return usual[c.Dev(len(usual), label)]
}

// asked is what an order has to say: by element and member.
type asked struct {
	val  map[[2]int]string
	size map[int]int // members of an element
	n    int         // elements, at most
	bad  bool        // something cannot be said in the bank's character set
}

func (a *asked) put(i, j int, s string) {
	l, ok := toLatin(s)
	if !ok {
		a.bad = true
	}
	a.val[[2]int{i, j}] = l
	if a.size[i] < j+1 {
		a.size[i] = j + 1
	}
	if a.n < i {
		a.n = i
	}
}

func newAsked() *asked { return &asked{val: map[[2]int]string{}, size: map[int]int{}} }

func (a *asked) yesno(i int, b bool) {
	if b {
		a.put(i, 0, "J")
	} else {
		a.put(i, 0, "N")
	}
}

func (a *asked) account(i int, k domain.AccountConnection) {
	a.put(i, 0, k.AccountID)
	a.put(i, 1, k.SubAccountCharacteristics)
	a.put(i, 2, fmt.Sprintf("%03d", k.CountryCode))
	a.put(i, 3, k.BankID)
}

func (a *asked) iaccount(i int, k domain.InternationalAccountConnection) {
	a.put(i, 0, k.IBAN)
	a.put(i, 1, k.BIC)
	a.put(i, 2, k.AccountID)
	a.put(i, 3, k.SubAccountCharacteristics)
	a.put(i, 4, fmt.Sprintf("%03d", k.BankID.CountryCode))
	a.put(i, 5, k.BankID.ID)
}

// differs reports how a segment differs from what was asked.
func (a *asked) differs(s *wire.Seg) string {
	n := len(s.DE) - 1
	if n < a.n {
		n = a.n
	}
	for i := 1; i <= n; i++ {
		m := a.size[i]
		if i < len(s.DE) && len(s.DE[i]) > m {
			m = len(s.DE[i])
		}
		for j := 0; j < m; j++ {
			if got, want := s.E(i, j), a.val[[2]int{i, j}]; got != want {
				return fmt.Sprintf("element %d, member %d is %q, asked was %q, in %q", i, j+1, got, want, s.Raw)
			}
		}
	}
	return ""
}

func chooseAccount(c *engine.Ctx) domain.AccountConnection {
	return domain.AccountConnection{
		AccountID:                 devText(c, "account", "101"),
		SubAccountCharacteristics: devText(c, "sub account", ""),
		CountryCode:               number(c, "country", 999, 280, 0, 7, 40, 999),
		BankID:                    devText(c, "bank", wBank),
	}
}

func devText(c *engine.Ctx, label, usual string) string {
	l := texts(usual)
	return l[c.Dev(len(l), label)]
}

func chooseIAccount(c *engine.Ctx) domain.InternationalAccountConnection {
	return domain.InternationalAccountConnection{
		IBAN:                      devText(c, "iban", "DE02100000000000000101"),
		BIC:                       devText(c, "bic", "TESTDEFFXXX"),
		AccountID:                 devText(c, "account", "101"),
		SubAccountCharacteristics: devText(c, "sub account", ""),
		BankID:                    domain.BankID{CountryCode: number(c, "country", 999, 280, 0, 7, 40, 999), ID: devText(c, "bank", wBank)},
	}
}

func c09(r *engine.Runner) {
	devs := r.Pick(1, 2)
	order := func(c *engine.Ctx) {
		ops := cops()
		op := ops[c.Choose(len(ops), "operation")]
		version := engine.Of(c, "protocol", 220, 300)
		segVersion := engine.Of(c, "version", op.impl...)
		a := usualArgs()
		w := newAsked()
		// the order as it must be
		if op.order != "HKPRO" {
			a.all = c.Bool("all accounts")
			if strings.HasPrefix(op.name, "Sepa") {
				a.iacct = chooseIAccount(c)
				w.iaccount(1, a.iacct)
			} else {
				a.acct = chooseAccount(c)
				w.account(1, a.acct)
			}
			w.yesno(2, a.all)
		}
		at := 0
		if op.order == "HKKAZ" {
			at = 2
		}
		if op.order != "HKSAL" {
			var f, t string
			a.from, f = aDay(c, "from", 2015, 1, 2)
			a.to, t = aDay(c, "to", 2015, 3, 4)
			w.put(at+1, 0, f)
			w.put(at+2, 0, t)
		}
		if op.order == "HKPRO" {
			a.max = number(c, "entries", 9999, 10, 1, 9999, 100)
			w.put(3, 0, strconv.Itoa(a.max))
		}
		if op.marks {
			a.mark = devText(c, "mark", "")
			w.put(markAt[op.order], 0, a.mark)
		}
		c.State(fmt.Sprint(op.name, version, segVersion, w.val))
		cw := newClientWorld(c, version, []string{bank.Param(op.param, segVersion)})
		cw.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
			return append([]string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}, op.render(4, segVersion, []int{1})...), nil
		}
		_, err := cw.perform(op, a)
		c.Validated()
		if w.bad {
			if err == nil {
				c.Fail("unencodable:"+op.name, "%s with %+v, which the bank's character set lacks, reports no error", op.name, a)
			}
			if len(cw.orders) > 0 {
				c.Fail("altered:"+op.name, "%s with %+v, which the bank's character set lacks, sends %q", op.name, a, cw.orders[0].Find(op.order))
			}
			return
		}
		if err != nil {
			c.Fail("refused:"+op.name, "%s with %+v fails: %v", op.name, a, err)
		}
		if len(cw.orders) != 1 || cw.orders[0].Find(op.order) == nil {
			c.Fail("orders:"+op.name, "%s sends %d orders", op.name, len(cw.orders))
		}
		m := cw.orders[0]
		if d := w.differs(m.Find(op.order)); d != "" {
			c.Fail("differs:"+op.name, "%s with %+v: %s", op.name, a, d)
		}
	}
	r.Explore("orders", fmt.Sprintf("5 operations, each version, HBCI 2.2 and FinTS 3.0, with at most %d unusual arguments: texts with delimiters, binary marks and accented letters, long, empty and unencodable ones, country codes, days in several time zones, numbers of entries, continuation marks", devs), devs, order)
	r.Explore("orders, every number", "the operations of the client with every country code and every number of entries", 0, func(c *engine.Ctx) {
		c.Tag = &every{label: engine.Of(c, "what", "country", "entries")}
		order(c)
	})
	devs = r.Pick(2, 3)
	r.Explore("identity", fmt.Sprintf("bank, user, PIN, product name and version of the configuration with at most %d unusual ones, and the system identifier the bank assigns: in every message of an order's dialogs", devs), devs, func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		bankID, user, pin := devText(c, "bank", wBank), devText(c, "user", wUser), devText(c, "pin", "43210")
		product, pversion := devText(c, "product", "prod"), devText(c, "product version", "1")
		system := devText(c, "system", "SYS1")
		if bankID == "" {
			c.Stop() // there is no bank without a code
		}
		bad := false
		enc := func(s string) string {
			l, ok := toLatin(s)
			if !ok {
				bad = true
			}
			return l
		}
		eBank, eUser, ePin, eProduct, eVersion := enc(bankID), enc(user), enc(pin), enc(product), enc(pversion)
		eSystem, ok := toLatin(system)
		if !ok || system == "" || system == "0" {
			c.Stop() // the bank cannot assign that one
		}
		c.State(fmt.Sprint(version, bankID, user, pin, product, pversion, system))
		op := cops()[0]
		cw := &cworld{c: c, version: version, params: []string{bank.Param("HISALS", 6)}, bank: &bank.Bank{}}
		cw.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
			return append([]string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}, op.render(4, 6, []int{1})...), nil
		}
		cw.bank.Answer = func(x *bank.Exchange, n int) bank.Reply {
			r := cw.answer(x, n)
			// the bank keeps the user's customer number and assigns the system
			r.Text = replaceSystem(r.Text, x, version, eSystem, eUser)
			return r
		}
		var err error
		cw.cl, err = client.New(client.Config{BankID: bankID, AccountID: user, PIN: pin, URL: "https://bank.example/", HBCIVersion: version, Transport: cw.bank, ProductName: product, ProductVersion: pversion})
		if err != nil {
			c.Fail("identity-new", "the client cannot be created: %v", err)
		}
		if pin == "" {
			c.Stop() // no authenticated message without PIN: C02
		}
		_, err = cw.perform(op, usualArgs())
		c.Validated()
		if bad {
			if err == nil {
				c.Fail("identity-unencodable", "a configuration the bank's character set lacks (%q %q %q %q %q) reports no error", bankID, user, pin, product, pversion)
			}
			if len(cw.bank.Log) > 0 {
				c.Fail("identity-altered", "a configuration the bank's character set lacks (%q %q %q %q %q) sends %q", bankID, user, pin, product, pversion, cw.bank.Log[0].Raw)
			}
			return
		}
		if err != nil {
			c.Fail("identity-refused", "bank %q user %q pin %q product %q %q system %q: %v", bankID, user, pin, product, pversion, system, err)
		}
		for i, x := range cw.bank.Log {
			m := x.Msg
			sys := eSystem
			if x.Kind == "sync" {
				sys = "0"
			}
			check := func(name, got, want string) {
				if got != want {
					c.Fail("identity:"+name, "message %d (%s): %s is %q, expected %q; bank %q user %q pin %q product %q %q system %q", i+1, x.Kind, name, got, want, bankID, user, pin, product, pversion, system)
				}
			}
			if s := m.Find("HKIDN"); s != nil {
				check("identification bank", s.E(1, 0)+":"+s.E(1, 1), "280:"+eBank)
				check("identification user", s.Group(2), eUser)
				check("identification system", s.Group(3), sys)
			}
			if s := m.Find("HKVVB"); s != nil {
				if product != "" {
					check("product", s.Group(4), eProduct)
				}
				if pversion != "" {
					check("product version", s.Group(5), eVersion)
				}
			}
			if s := m.SigEnd; s == nil {
				c.Fail("identity-unsigned", "message %d (%s) is not signed", i+1, x.Kind)
			} else {
				check("PIN", s.Group(3), ePin)
			}
			for k, id := range []string{"HNSHK", "HNVSK"} {
				s := []*wire.Seg{m.SigHead, m.CryptHead}[k]
				if s == nil {
					c.Fail("identity-missing", "message %d (%s) lacks %s", i+1, x.Kind, id)
				}
				found, foundSys := false, false
				for e := 1; e < len(s.DE); e++ {
					if len(s.DE[e]) >= 3 && s.E(e, 0) == "280" && s.E(e, 1) == eBank && s.E(e, 2) == eUser {
						found = true
					}
					if s.E(e, 2) == sys && (s.E(e, 0) == "1" || s.E(e, 0) == "2") {
						foundSys = true
					}
				}
				if !found {
					c.Fail("identity-key", "message %d (%s): the key name of %s is not of bank %q, user %q: %q", i+1, x.Kind, id, bankID, user, s.Raw)
				}
				if !foundSys {
					c.Fail("identity-system", "message %d (%s): %s does not name the system %q: %q", i+1, x.Kind, id, sys, s.Raw)
				}
			}
		}
	})
	r.Explore("anonymous", "the request for communication access in an anonymous dialog, with at most 2 unusual arguments", 2, func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		w := newAsked()
		var ids []domain.BankID
		for i := 1; i <= 2; i++ {
			b := domain.BankID{CountryCode: number(c, "country", 999, 280, 0, 7, 40, 999), ID: devText(c, "bank", wBank)}
			w.put(i, 0, fmt.Sprintf("%03d", b.CountryCode))
			w.put(i, 1, b.ID)
			ids = append(ids, b)
		}
		max := number(c, "entries", 9999, 10, 1, 9999)
		w.put(3, 0, strconv.Itoa(max))
		c.State(fmt.Sprint(version, w.val))
		cw := newClientWorld(c, version, nil)
		cw.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) { return []string{bank.OK()}, nil }
		var err error
		if p := engine.Guard(func() {
			_, err = (&client.AnonymousClient{Client: cw.cl}).CommunicationAccess(ids[0], ids[1], max)
		}); p != "" {
			c.Fail("anonymous-panic", "communication access %+v %d: %s", ids, max, p)
		}
		c.Validated()
		if w.bad {
			if err == nil || len(cw.orders) > 0 {
				c.Fail("anonymous-unencodable", "communication access %+v: no error", ids)
			}
			return
		}
		if err != nil {
			c.Fail("anonymous-refused", "communication access %+v %d: %v", ids, max, err)
		}
		if len(cw.orders) != 1 || cw.orders[0].Find("HKKOM") == nil {
			c.Fail("anonymous-orders", "communication access sends %d orders", len(cw.orders))
		}
		if d := w.differs(cw.orders[0].Find("HKKOM")); d != "" {
			c.Fail("anonymous-differs", "communication access %+v %d: %s", ids, max, d)
		}
	})
	requestSegments(r)
}

// replaceSystem lets the bank assign another system identifier and keep the
// user's customer number.
func replaceSystem(text string, x *bank.Exchange, version int, system, user string) string {
	if x.Msg == nil || (x.Kind != "sync" && x.Kind != "init") {
		return text
	}
	body := []string{bank.OK(), bank.BPA(version, 78, "Bank"), bank.Param("HISALS", 6), bank.UPA(version, 4, user), bank.UPD(version, user, "101")}
	if x.Kind == "sync" {
		body = append(body, bank.SYN(version, system))
	}
	return bank.Msg(x.Msg, version, "D1", body...)
}

// requestSegments checks what the constructors of client segments encode.
func requestSegments(r *engine.Runner) {
	devs := r.Pick(3, 4)
	type con struct {
		name string
		f    func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int)
	}
	acct := func(id string, version int, f func(domain.AccountConnection, bool) segment.ClientSegment) con {
		return con{fmt.Sprint(id, version), func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int) {
			k, all := chooseAccount(c), c.Bool("all")
			w.account(1, k)
			w.yesno(2, all)
			return f(k, all), id, version
		}}
	}
	iacct := func(id string, version int, f func(domain.InternationalAccountConnection, bool) segment.ClientSegment) con {
		return con{fmt.Sprint(id, version), func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int) {
			k, all := chooseIAccount(c), c.Bool("all")
			w.iaccount(1, k)
			w.yesno(2, all)
			return f(k, all), id, version
		}}
	}
	pro := func(version int, f func(a, b time.Time, max int, mark string) segment.StatusProtocolRequest) con {
		return con{fmt.Sprint("HKPRO", version), func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int) {
			from, f1 := aDay(c, "from", 2015, 1, 2)
			to, t1 := aDay(c, "to", 2015, 3, 4)
			max := number(c, "entries", 9999, 10, 1, 9999)
			mark := devText(c, "mark", "")
			w.put(1, 0, f1)
			w.put(2, 0, t1)
			w.put(3, 0, strconv.Itoa(max))
			w.put(4, 0, mark)
			return f(from, to, max, mark), "HKPRO", version
		}}
	}
	kaz := func(s *segment.AccountTransactionRequestSegment) segment.ClientSegment { return s }
	cons := []con{
		acct("HKSAL", 5, func(k domain.AccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountBalanceRequestV5(k, all)
		}),
		acct("HKSAL", 6, func(k domain.AccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountBalanceRequestV6(k, all)
		}),
		iacct("HKSAL", 7, func(k domain.InternationalAccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountBalanceRequestV7(k, all)
		}),
		iacct("HKSAL", 8, func(k domain.InternationalAccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountBalanceRequestV8(k, all)
		}),
		acct("HKKIF", 1, func(k domain.AccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV1(k, all)
		}),
		acct("HKKIF", 2, func(k domain.AccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV2(k, all)
		}),
		iacct("HKKIF", 3, func(k domain.InternationalAccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV3(k, all)
		}),
		iacct("HKKIF", 4, func(k domain.InternationalAccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV4(k, all)
		}),
		iacct("HKKIF", 5, func(k domain.InternationalAccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV5(k, all)
		}),
		iacct("HKKIF", 6, func(k domain.InternationalAccountConnection, all bool) segment.ClientSegment {
			return segment.NewAccountInformationRequestSegmentV6(k, all)
		}),
		acct("HKKAZ", 5, func(k domain.AccountConnection, all bool) segment.ClientSegment {
			return kaz(segment.NewAccountTransactionRequestSegmentV5(k, all))
		}),
		acct("HKKAZ", 6, func(k domain.AccountConnection, all bool) segment.ClientSegment {
			return kaz(segment.NewAccountTransactionRequestSegmentV6(k, all))
		}),
		iacct("HKKAZ", 7, func(k domain.InternationalAccountConnection, all bool) segment.ClientSegment {
			return kaz(segment.NewAccountTransactionRequestSegmentV7(k, all))
		}),
		pro(3, segment.NewStatusProtocolRequestV3),
		pro(4, segment.NewStatusProtocolRequestV4),
		{"HKKOM3", func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int) {
			var ids []domain.BankID
			for i := 1; i <= 2; i++ {
				b := domain.BankID{CountryCode: number(c, "country", 999, 280, 0, 7, 40, 999), ID: devText(c, "bank", wBank)}
				w.put(i, 0, fmt.Sprintf("%03d", b.CountryCode))
				w.put(i, 1, b.ID)
				ids = append(ids, b)
			}
			max := number(c, "entries", 9999, 10, 1, 9999)
			mark := devText(c, "mark", "")
			w.put(3, 0, strconv.Itoa(max))
			w.put(4, 0, mark)
			return segment.NewCommunicationAccessRequestSegment(ids[0], ids[1], max, mark), "HKKOM", 3
		}},
		{"HKEND1", func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int) {
			d := devText(c, "dialog", "D1")
			w.put(1, 0, d)
			return segment.NewDialogEndSegment(d), "HKEND", 1
		}},
		{"HKIDN2", func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int) {
			b := domain.BankID{CountryCode: number(c, "country", 999, 280, 0, 7, 40, 999), ID: devText(c, "bank", wBank)}
			user, sys, req := devText(c, "user", "U"), devText(c, "system", "S"), c.Bool("required")
			w.put(1, 0, fmt.Sprintf("%03d", b.CountryCode))
			w.put(1, 1, b.ID)
			w.put(2, 0, user)
			w.put(3, 0, sys)
			w.put(4, 0, map[bool]string{true: "1", false: "0"}[req])
			return segment.NewIdentificationSegment(b, user, sys, req), "HKIDN", 2
		}},
	}
	for _, v := range []int{2, 3} {
		v := v
		cons = append(cons, con{fmt.Sprint("HKVVB", v), func(c *engine.Ctx, w *asked) (segment.ClientSegment, string, int) {
			b, u := number(c, "bpd", 999, 78, 0, 1, 999), number(c, "upd", 999, 4, 0, 1, 999)
			lang := []domain.Language{0, 1, 2, 3}[c.Dev(4, "language")]
			p, pv := devText(c, "product", "prod"), devText(c, "product version", "1")
			w.put(1, 0, strconv.Itoa(b))
			w.put(2, 0, strconv.Itoa(u))
			w.put(3, 0, strconv.Itoa(int(lang)))
			w.put(4, 0, p)
			w.put(5, 0, pv)
			if p == "" || pv == "" {
				c.Stop() // a default is filled in
			}
			if v == 2 {
				return segment.NewProcessingPreparationSegmentV2(b, u, lang, p, pv), "HKVVB", 2
			}
			return segment.NewProcessingPreparationSegmentV3(b, u, lang, p, pv), "HKVVB", 3
		}})
	}
	one := func(c *engine.Ctx) {
		k := cons[c.Choose(len(cons), "segment")]
		w := newAsked()
		s, id, version := k.f(c, w)
		if m, ok := s.(interface{ SetContinuationMark(string) }); ok {
			if mark := devText(c, "mark", ""); mark != "" {
				m.SetContinuationMark(mark)
				w.put(markIn(id), 0, mark)
			}
		}
		if m, ok := s.(segment.AccountTransactionRequest); ok {
			from, f1 := aDay(c, "from", 2015, 1, 2)
			to, t1 := aDay(c, "to", 2015, 3, 4)
			m.SetTransactionRange(domain.Timeframe{StartDate: domain.NewShortDate(from), EndDate: domain.NewShortDate(to)})
			w.put(3, 0, f1)
			w.put(4, 0, t1)
			if mark := devText(c, "mark", ""); mark != "" {
				m.SetContinuationReference(mark)
				w.put(6, 0, mark)
			}
		}
		pos := number(c, "position", 999, 3, 1, 999)
		s.SetPosition(func() int { return pos })
		var out []byte
		var err error
		if p := engine.Guard(func() { out, err = s.MarshalHBCI() }); p != "" {
			c.Fail("segment-panic:"+k.name, "%s with %q: %s", k.name, w.val, p)
		}
		c.Between()
		c.State(k.name + string(out) + fmt.Sprint(w.bad))
		c.Validated()
		if w.bad {
			if err == nil {
				c.Fail("segment-unencodable:"+k.name, "%s encodes a value the bank's character set lacks as %q", k.name, out)
			}
			return
		}
		if err != nil {
			c.Fail("segment-refused:"+k.name, "%s with %q: %v", k.name, w.val, err)
		}
		segs, err := wire.Parse(string(out))
		if err != nil || len(segs) != 1 {
			c.Fail("segment-unparseable:"+k.name, "%s with %q is encoded as %q: %v", k.name, w.val, out, err)
		}
		g := segs[0]
		if g.ID != id || g.Ver != version || g.E(0, 1) != strconv.Itoa(pos) {
			c.Fail("segment-head:"+k.name, "%s at position %d is encoded as %q", k.name, pos, out)
		}
		if d := w.differs(g); d != "" {
			c.Fail("segment-differs:"+k.name, "%s: %s", k.name, d)
		}
	}
	r.ExploreBetween("request segments", fmt.Sprintf("the %d kinds of request segments with at most %d unusual values: their encoding taken apart again", len(cons), devs), devs, one)
	labels := []string{"country", "entries", "bpd", "upd", "position", "from", "to"}
	r.Explore("every number and day", fmt.Sprintf("the %d kinds of request segments with every single country code, number of entries, version and segment position they can name, and with every day from 1990 to 2099", len(cons)), 0, func(c *engine.Ctx) {
		c.Tag = &every{label: labels[c.Choose(len(labels), "what")], nth: c.Choose(2, "nth")}
		one(c)
	})
}

func markIn(id string) int {
	if id == "HKKIF" {
		return 4
	}
	return markAt[id]
}

func init() {
	engine.Register("C09", c09)
}
