package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

const nl = "\r\n"

func day(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC) }

// mtStmt is a bank statement: the text the bank sends and what it means.
type mtStmt struct {
	bank, acct string
	number     string
	open, shut mtBal
	txs        []mtTx
	trailer    string
}

type mtBal struct {
	opt  string // F or M
	mark string
	date time.Time
	cur  string
	amt  string
}

func amtVal(s string) float64 {
	f, err := strconv.ParseFloat(strings.Replace(s, ",", ".", 1), 64)
	if err != nil {
		panic(err)
	}
	return f
}

func (b mtBal) text(tag string) string {
	d := "0"
	if !b.date.IsZero() {
		d = b.date.Format("060102")
	}
	return nl + ":" + tag + b.opt + ":" + b.mark + d + b.cur + b.amt
}

func (b mtBal) want() domain.Balance {
	a := amtVal(b.amt)
	if b.mark == "D" {
		a = -a
	}
	return domain.Balance{Amount: domain.Amount{Amount: a, Currency: b.cur}, TransmissionDate: b.date}
}

// mtTx is one booking.
type mtTx struct {
	valuta  time.Time
	booking time.Time // zero: not given
	mark    string
	funds   string
	amt     string
	key     string
	ref     string
	bankRef string
	info    string
	desc    *mtDesc
}

type mtDesc struct {
	code         string
	text, prima  *string
	purpose      []string
	blz, kto     *string
	name1, name2 *string
	keyAdd       *string
	purpose2     []string
	raw          string // unstructured when set
	breaks       []int  // positions of line breaks
}

func sp(s string) *string { return &s }

func (d *mtDesc) text86() string {
	if d.raw != "" {
		return d.raw
	}
	s := d.code
	f := func(key string, v *string) {
		if v != nil {
			s += "?" + key + *v
		}
	}
	f("00", d.text)
	f("10", d.prima)
	for i := range d.purpose {
		f(fmt.Sprint(20+i), &d.purpose[i])
	}
	f("30", d.blz)
	f("31", d.kto)
	f("32", d.name1)
	f("33", d.name2)
	f("34", d.keyAdd)
	for i := range d.purpose2 {
		f(fmt.Sprint(60+i), &d.purpose2[i])
	}
	s = latin1(s)
	for i := len(d.breaks) - 1; i >= 0; i-- {
		p := d.breaks[i]
		s = s[:p] + nl + s[p:]
	}
	return s
}

func (t mtTx) text() string {
	s := nl + ":61:" + t.valuta.Format("060102")
	if !t.booking.IsZero() {
		s += t.booking.Format("0102")
	}
	s += t.mark + t.funds + t.amt + "N" + t.key + t.ref
	if t.bankRef != "" {
		s += "//" + t.bankRef
	}
	if t.info != "" {
		s += nl + "/" + t.info
	}
	if t.desc != nil {
		s += nl + ":86:" + t.desc.text86()
	}
	return s
}

func (s mtStmt) text() string {
	t := nl + ":20:STARTUMS" + nl + ":25:" + s.bank + "/" + s.acct + nl + ":28C:" + s.number + s.open.text("60")
	for _, tx := range s.txs {
		t += tx.text()
	}
	return t + s.shut.text("62") + s.trailer + nl + "-"
}

func (t mtTx) want(s *mtStmt) domain.AccountTransaction {
	a := amtVal(t.amt)
	if t.mark == "D" || t.mark == "RC" {
		a = -a
	}
	w := domain.AccountTransaction{
		Account:              domain.AccountConnection{BankID: s.bank, AccountID: s.acct, CountryCode: 280},
		Amount:               domain.Amount{Amount: a, Currency: s.open.cur},
		ValutaDate:           t.valuta,
		BookingDate:          t.booking,
		AccountBalanceBefore: s.open.want(),
		AccountBalanceAfter:  s.shut.want(),
	}
	if d := t.desc; d != nil && d.raw == "" {
		str := func(p *string) string {
			if p == nil {
				return ""
			}
			return *p
		}
		w.BookingText = str(d.text)
		w.BankID = str(d.blz)
		w.AccountID = str(d.kto)
		w.Name = str(d.name1)
		if d.name2 != nil {
			w.Name += " " + *d.name2
		}
		w.Purpose = strings.Join(d.purpose, " ")
		w.Purpose2 = strings.Join(d.purpose2, " ")
		w.TransactionID, _ = strconv.Atoi(d.code)
	}
	return w
}

func mtWant(stmts []mtStmt) []domain.AccountTransaction {
	var w []domain.AccountTransaction
	for i := range stmts {
		for _, t := range stmts[i].txs {
			w = append(w, t.want(&stmts[i]))
		}
	}
	return w
}

func mtText(stmts []mtStmt) string {
	t := ""
	for _, s := range stmts {
		t += s.text()
	}
	return t
}

func baseDesc() *mtDesc {
	return &mtDesc{code: "166", text: sp("GUTSCHRIFT"), prima: sp("9310"), purpose: []string{"SVWZ+Miete", "Dezember"}, blz: sp("COBADEFF"), kto: sp("DE89370400440532013000"), name1: sp("MAX MUSTERMANN"), keyAdd: sp("888")}
}

func baseTx() mtTx {
	return mtTx{valuta: day(2016, 3, 14), booking: day(2016, 3, 15), mark: "C", amt: "12,34", key: "TRF", ref: "NONREF", desc: baseDesc()}
}

func baseStmt(txs ...mtTx) mtStmt {
	return mtStmt{bank: "10020030", acct: "1234567", number: "5/1", txs: txs,
		open: mtBal{"F", "C", day(2016, 3, 10), "EUR", "2187,95"},
		shut: mtBal{"F", "C", day(2016, 3, 15), "EUR", "2200,29"}}
}

func sameTx(c *engine.Ctx, sig string, text string, got, want []domain.AccountTransaction) {
	if len(got) != len(want) {
		c.Fail(sig+":count", "%q decodes to %d transactions, it has %d", text, len(got), len(want))
	}
	for i := range got {
		for _, f := range []struct {
			name      string
			got, want any
		}{
			{"account", got[i].Account, want[i].Account},
			{"amount", got[i].Amount, want[i].Amount},
			{"valuta", got[i].ValutaDate, want[i].ValutaDate},
			{"booking", got[i].BookingDate, want[i].BookingDate},
			{"text", got[i].BookingText, want[i].BookingText},
			{"bank", got[i].BankID, want[i].BankID},
			{"accountID", got[i].AccountID, want[i].AccountID},
			{"name", strings.TrimSpace(got[i].Name), strings.TrimSpace(want[i].Name)},
			{"purpose", got[i].Purpose, want[i].Purpose},
			{"purpose2", got[i].Purpose2, want[i].Purpose2},
			{"code", got[i].TransactionID, want[i].TransactionID},
			{"before", got[i].AccountBalanceBefore, want[i].AccountBalanceBefore},
			{"after", got[i].AccountBalanceAfter, want[i].AccountBalanceAfter},
		} {
			if a, b := canon(f.got), canon(f.want); a != b {
				c.Fail(sig+":"+f.name, "transaction %d of %q: %s is %s, it should be %s", i, text, f.name, a, b)
			}
		}
	}
}

// decodeMT runs the public entry point.
func decodeMT(c *engine.Ctx, text string) ([]domain.AccountTransaction, error) {
	in := []byte(text)
	var txs []domain.AccountTransaction
	var err error
	if p := engine.Guard(func() { txs, err = swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(in) }); p != "" {
		c.Fail("panic:"+p, "decoding %q panics: %s", text, p)
	}
	c.Between()
	if string(in) != text {
		c.Fail("input-changed", "decoding %q changed it to %q", text, in)
	}
	if c.Verbose() {
		c.Logf("statement %q", text)
		c.Logf(" -> err=%v %s", err, canon(txs))
	}
	return txs, err
}

func checkStmts(c *engine.Ctx, stmts ...mtStmt) {
	text := mtText(stmts)
	got, err := decodeMT(c, text)
	if err != nil {
		c.Fail("rejected", "the valid statement %q is rejected: %v", text, err)
	}
	want := mtWant(stmts)
	for i := range want {
		if k := unstructuredAt(stmts, i); k {
			// where free text goes is not laid down
			got[i].Purpose, got[i].TransactionID = "", 0
		}
	}
	sameTx(c, "tx", text, got, want)
	c.State(fmt.Sprint(len(stmts), len(want)) + text)
	c.Validated()
}

func unstructuredAt(stmts []mtStmt, i int) bool {
	for _, s := range stmts {
		if i < len(s.txs) {
			return s.txs[i].desc != nil && s.txs[i].desc.raw != ""
		}
		i -= len(s.txs)
	}
	return false
}

// checkTag compares the statement line itself.
func checkTag(c *engine.Ctx, t mtTx) {
	text := strings.TrimPrefix(mtTx{t.valuta, t.booking, t.mark, t.funds, t.amt, t.key, t.ref, t.bankRef, t.info, nil}.text(), nl)
	var tag swift.TransactionTag
	var err error
	if p := engine.Guard(func() { err = tag.Unmarshal([]byte(text)) }); p != "" {
		c.Fail("panic:"+p, "decoding %q panics: %s", text, p)
	}
	c.Between()
	if err != nil {
		c.Fail("line-rejected", "the valid line %q is rejected: %v", text, err)
	}
	want := swift.TransactionTag{Tag: ":61:", ValutaDate: domain.ShortDate{Time: t.valuta}, BookingDate: domain.ShortDate{Time: t.booking},
		DebitCreditIndicator: t.mark, CurrencyKind: t.funds, Amount: amtVal(t.amt), BookingKey: t.key,
		Reference: t.ref, BankReference: t.bankRef, AdditionalInformation: t.info}
	if strings.Contains(t.info, "//") {
		// some banks put the bank reference after the additional information
		tag.BankReference, tag.AdditionalInformation = want.BankReference, want.AdditionalInformation
	}
	if g, w := canon(tag), canon(want); g != w {
		c.Fail("line-fields", "the line %q decodes to %s, it should be %s", text, g, w)
	}
}

func init() {
	engine.Register("C14", func(r *engine.Runner) {
		r.ExploreBetween("transaction-lines", "every combination of the four debit/credit marks, six currency letters, nine amounts, given or absent booking date, booking key, reference, bank reference and additional information", 0, func(c *engine.Ctx) {
			t := baseTx()
			t.mark = engine.Of(c, "mark", "C", "D", "RC", "RD")
			t.funds = engine.Of(c, "funds", "", "R", "D", "C", "F", "Y")
			t.amt = engine.Of(c, "amt", "4,52", "0,01", "1000,", "1,", "12345678901,23", "0,5", "50,", "0,", "99999,99")
			if c.Bool("nobook") {
				t.booking = time.Time{}
			}
			t.key = engine.Of(c, "key", "TRF", "MSC", "024", "DDT")
			t.ref = engine.Of(c, "ref", "NONREF", "R", "ABC123", "KREF+1/2 N3")
			t.bankRef = engine.Of(c, "bref", "", "55555", "POS/1-2")
			t.info = engine.Of(c, "info", "", "x", "/x", "OCMT/EUR409,03/", "OCMT/EUR1,00//CHGS/EUR2,1/")
			if t.bankRef != "" && strings.Contains(t.info, "//") {
				c.Stop()
			}
			checkTag(c, t)
			checkStmts(c, baseStmt(t))
		})
		span := r.Pick(150, 180)
		first := day(r.Pick(2015, 2000), 1, 1)
		days := r.Pick(4*365+1, 99*365+24)
		r.ExploreBetween("booking-dates", fmt.Sprintf("every value date of %d days from %s with every booking date up to %d days before and after it", days, first.Format("2006-01-02"), span), 0, func(c *engine.Ctx) {
			t := baseTx()
			t.valuta = first.AddDate(0, 0, c.Choose(days, "valuta"))
			t.booking = t.valuta.AddDate(0, 0, c.Choose(2*span+1, "offset")-span)
			t.desc = nil
			checkTag(c, t)
			if t.valuta.Day() == 31 || t.booking.Day() == 29 {
				checkStmts(c, baseStmt(t))
			}
			c.State(t.valuta.Format("060102") + t.booking.Format("060102"))
		})
		r.Explore("bank-calendar", "value dates 30 (and 29) February, which bank calendars have", 0, func(c *engine.Ctx) {
			y := 2000 + c.Choose(60, "year")
			md := engine.Of(c, "day", "0228", "0229", "0230")
			text := nl + ":20:X" + nl + ":25:1/2" + nl + ":28C:0" + nl + ":60F:C160310EUR1,00" + nl + fmt.Sprintf(":61:%02d%s", y%100, md) + engine.Of(c, "b", "", "0228", "0301") + "CR1,00NTRFNONREF" + nl + ":62F:C160310EUR2,00" + nl + "-"
			got, err := decodeMT(c, text)
			if err != nil || len(got) != 1 {
				c.Fail("bank-calendar", "%q decodes to %d transactions, error %v", text, len(got), err)
			}
			d := got[0].ValutaDate
			lo, hi := day(y, 2, 28), day(y, 3, 2)
			if d.Before(lo) || d.After(hi) {
				c.Fail("bank-calendar", "%q: value date is %s", text, d)
			}
			c.State(text)
		})
		texts := []string{"Miete 12/2016", "", "Überweisung für Jürgen, Größe ß", "A/B:C-1,2+'x' (y).", "123456789012345678901234567", "KREF+NONREF//X", "ÿ\u00a0é", ":61:", "-"}
		nb := r.Pick(3, 4)
		r.ExploreBetween("descriptions", fmt.Sprintf("every description that differs in at most %d of its fields (each absent, or one of %d values) from a common one", nb, len(texts)), nb, func(c *engine.Ctx) {
			d := baseDesc()
			d.code = []string{"166", "008", "999", "051"}[c.Dev(4, "code")]
			set := func(p **string, name string) {
				switch k := c.Dev(len(texts)+2, name); {
				case k == 1:
					*p = nil
				case k > 1:
					*p = &texts[k-2]
				}
			}
			set(&d.text, "00")
			set(&d.prima, "10")
			switch k := c.Dev(4+len(texts), "20-29"); {
			case k == 1:
				d.purpose = nil
			case k == 2:
				d.purpose = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}
			case k == 3:
				d.purpose = []string{"one"}
			case k > 3:
				d.purpose = []string{"EREF+1", texts[k-4], "SVWZ+x"}
			}
			set(&d.blz, "30")
			set(&d.kto, "31")
			set(&d.name1, "32")
			set(&d.name2, "33")
			switch c.Dev(3, "34") {
			case 1:
				d.keyAdd = nil
			case 2:
				d.keyAdd = sp("000")
			}
			switch k := c.Dev(3+len(texts), "60-63"); {
			case k == 1:
				d.purpose2 = []string{"w", "x", "y", "z"}
			case k == 2:
				d.purpose2 = []string{"one"}
			case k > 2:
				d.purpose2 = []string{texts[k-3], "last"}
			}
			t := baseTx()
			t.desc = d
			checkStmts(c, baseStmt(t))
		})
		r.Explore("line-breaks", "a description with up to two line breaks at every pair of positions", 0, func(c *engine.Ctx) {
			d := baseDesc()
			d.name2 = sp("UND FRAU")
			d.purpose2 = []string{"Rest"}
			n := len(d.text86())
			d.breaks = []int{1 + c.Choose(n-2, "p1")}
			if c.Bool("second") {
				p2 := d.breaks[0] + 1 + c.Choose(n-1-d.breaks[0], "p2")
				d.breaks = append(d.breaks, p2)
			}
			if d.breaks[0] < 3 {
				c.Stop() // never inside the three-digit code
			}
			t := baseTx()
			t.desc = d
			checkStmts(c, baseStmt(t))
		})
		r.ExploreBetween("balances", "every combination of signs, kinds, amounts, currencies and dates of opening and closing balance, statement number and account forms", 0, func(c *engine.Ctx) {
			s := baseStmt(baseTx())
			bal := func(b *mtBal) {
				b.opt = engine.Of(c, "opt", "F", "M")
				b.mark = engine.Of(c, "mark", "C", "D")
				b.amt = engine.Of(c, "amt", "2187,95", "0,00", "1000,", "0,1")
			}
			bal(&s.open)
			bal(&s.shut)
			if s.open.opt == "F" {
				switch c.Choose(3, "date") {
				case 1:
					s.open.date = time.Time{}
				case 2:
					s.open.date = day(2016, 2, 29)
				}
			}
			s.shut.date = engine.Of(c, "shut", day(2016, 3, 15), day(2020, 12, 31))
			cur := engine.Of(c, "cur", "EUR", "CHF")
			s.open.cur, s.shut.cur = cur, cur
			s.bank = engine.Of(c, "bank", "10020030", "COBADEFFXXX")
			s.acct = engine.Of(c, "acct", "1234567", "12345678901234567890", "1234567EUR")
			s.number = engine.Of(c, "number", "0", "5", "5/1", "00012/001")
			checkStmts(c, s)
		})
		free := []string{"Freier Text ohne Struktur", "Text in" + nl + "zwei Zeilen", "TEXT", "TEXT" + nl + "ZEILE2", "12 Monate", "1", "AB", "999Unstrukturierter Text", "999", "-", "12,5" + nl + "Prozent", "A1" + nl + "B2", "AB " + nl + "CD"}
		r.ExploreBetween("free-text", "free text in the description of a transaction and after the closing balance, with the optional value balances", 0, func(c *engine.Ctx) {
			t := baseTx()
			if k := c.Choose(len(free)+2, "tx"); k == 1 {
				t.desc = nil
			} else if k > 1 {
				t.desc = &mtDesc{raw: free[k-2]}
			}
			s := baseStmt(t)
			if c.Bool("second") {
				s.txs = append(s.txs, baseTx())
			}
			if c.Bool("64") {
				s.trailer += nl + ":64:C160316EUR5,00"
			}
			for i := c.Choose(3, "65"); i > 0; i-- {
				s.trailer += nl + ":65:D160317EUR6,00"
			}
			if k := c.Choose(len(free)+1, "86"); k > 0 {
				s.trailer += nl + ":86:" + free[k-1]
			}
			checkStmts(c, s)
		})
		cents := r.Pick(20000, 200000)
		most := r.Pick(140, 600)
		r.Explore("every value", fmt.Sprintf("every amount up to %d cents in each way to write it, and around each power of ten, as amount and as balance; every day of 60 years as date of a balance; every value and every character in each text of a description or line, of every length up to %d; every business code, text key, booking key of letters, currency letter and statement number", cents, most), 0, func(c *engine.Ctx) {
			t := baseTx()
			s := baseStmt()
			d := t.desc
			what := engine.Of(c, "what", "amount", "day", "code", "key addition", "booking key", "funds", "currency", "number", "text", "character")
			switch what {
			case "amount":
				v := int64(c.Choose(cents+1+10*7, "amount"))
				if k := int(v) - cents - 1; k >= 0 {
					p := int64(100000)
					for i := k / 7; i > 0; i-- {
						p *= 10
					}
					v = p + []int64{-101, -100, -1, 0, 1, 99, 100}[k%7]
				}
				a := fmt.Sprintf("%d,%02d", v/100, v%100)
				switch engine.Of(c, "how", "two digits", "short", "leading zeros") {
				case "short":
					a = strings.TrimSuffix(strings.TrimSuffix(a, "0"), "0")
				case "leading zeros":
					a = "00" + a
				}
				switch c.Choose(3, "where") {
				case 0:
					t.amt = a
				case 1:
					s.open.amt, s.open.mark = a, "D"
				case 2:
					s.shut.amt = a
				}
			case "day":
				x := day(2000, 1, 1).AddDate(0, 0, c.Choose(60*365+15, "day"))
				if c.Bool("closing") {
					s.shut.date = x
				} else {
					s.open.date = x
				}
				t.valuta, t.booking = x, x
			case "code":
				d.code = fmt.Sprintf("%03d", c.Choose(1000, "code"))
			case "key addition":
				d.keyAdd = sp(fmt.Sprintf("%03d", c.Choose(1000, "key addition")))
			case "booking key":
				k := []byte("AAA")
				for i := range k {
					k[i] += byte(c.Choose(26, "letter"))
				}
				t.key = string(k)
			case "funds":
				t.funds = string([]byte{byte('A' + c.Choose(26, "letter"))})
				t.mark = engine.Of(c, "mark", "C", "D", "RC", "RD")
			case "currency":
				k := []byte("AAA")
				for i := range k {
					k[i] += byte(c.Choose(26, "letter"))
				}
				s.open.cur, s.shut.cur = string(k), string(k)
			case "number":
				s.number = fmt.Sprintf("%05d/%03d", c.Choose(1100, "number"), c.Choose(3, "page"))
			default:
				var text string
				if what == "text" {
					for n := c.Choose(most+1, "length"); n > 0; n-- {
						text += "Der lange Text 12/34,5-6.7+8 "[n%29 : n%29+1]
					}
					text = strings.Trim(text, " ")
				} else {
					k := rune(' ' + c.Choose(95+96, "character"))
					if k >= 127 {
						k += 0xa0 - 127
					}
					if k == '?' {
						c.Stop()
					}
					ch := string(k)
					text = engine.Of(c, "frame", "x", "")
					text = []string{text + ch + "y", "x" + ch + text, "a" + ch + ch + "b"}[c.Choose(3, "place")]
					if strings.TrimSpace(text) != text {
						c.Stop()
					}
				}
				switch where := engine.Of(c, "where", "booking text", "prima nota", "bank", "account", "name", "second name", "purpose", "second purpose", "reference", "bank reference", "information"); where {
				case "booking text":
					d.text = &text
				case "prima nota":
					d.prima = &text
				case "bank":
					d.blz = &text
				case "account":
					d.kto = &text
				case "name":
					d.name1 = &text
				case "second name":
					d.name2 = &text
				case "purpose", "second purpose":
					most := map[string]int{"purpose": 10, "second purpose": 4}[where]
					n := 1 + c.Choose(most, "lines")
					at := c.Choose(n, "line")
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, fmt.Sprintf("Zeile%d", i))
					}
					l[at] = text
					if where == "purpose" {
						d.purpose = l
					} else {
						d.purpose2 = l
					}
				case "reference", "bank reference", "information":
					if text == "" || strings.Contains(text, "//") || strings.HasPrefix(text, "/") || strings.HasSuffix(text, "/") {
						c.Stop()
					}
					for _, x := range text {
						if x >= 0x7f {
							c.Stop() // these are plain
						}
					}
					switch where {
					case "reference":
						t.ref = text
					case "bank reference":
						t.bankRef = text
					default:
						t.info = text
					}
				}
			}
			s.txs = []mtTx{t, baseTx()}
			checkTag(c, t)
			checkStmts(c, s)
		})
	})

	engine.Register("C15", func(r *engine.Runner) {
		maxS, maxT := r.Pick(3, 4), 3
		stmt := func(c *engine.Ctx, i int) mtStmt {
			s := baseStmt()
			s.acct = fmt.Sprint(1000 + i)
			s.open.amt, s.shut.amt = fmt.Sprintf("%d,00", 10+i), fmt.Sprintf("%d,00", 20+i)
			n := c.Choose(maxT+1, "txs")
			for j := 0; j < n; j++ {
				t := baseTx()
				t.amt = fmt.Sprintf("%d,%02d", i+1, j)
				switch c.Choose(2, "desc") {
				case 0:
					t.desc.purpose = []string{fmt.Sprintf("p%d.%d", i, j)}
				case 1:
					t.desc = nil
				}
				s.txs = append(s.txs, t)
			}
			if c.Bool("trailer") {
				s.trailer = nl + ":64:C160316EUR5,00" + nl + ":86:166?00Hinweis"
			}
			return s
		}
		r.ExploreBetween("streams", fmt.Sprintf("every stream of up to %d statements of up to %d transactions, each with or without description, each statement with or without trailing fields", maxS, maxT), 0, func(c *engine.Ctx) {
			n := c.Choose(maxS+1, "statements")
			var stmts []mtStmt
			for i := 0; i < n; i++ {
				stmts = append(stmts, stmt(c, i))
			}
			checkStmts(c, stmts...)
		})
		lens := []int{12, 13, 50, r.Pick(100, 500)}
		r.Explore("long-streams", fmt.Sprintf("streams of %v statements of %v transactions", lens, lens), 0, func(c *engine.Ctx) {
			n, m := lens[c.Choose(len(lens), "n")], lens[c.Choose(len(lens), "m")]
			var stmts []mtStmt
			for i := 0; i < n; i++ {
				s := baseStmt()
				s.acct = fmt.Sprint(1000 + i)
				for j := 0; j < m; j++ {
					t := baseTx()
					t.amt = fmt.Sprintf("%d,%02d", i*1000+j, j%100)
					t.desc = nil
					if (i+j)%3 == 0 {
						t.desc = &mtDesc{code: "166", purpose: []string{fmt.Sprint(i, "-", j)}}
					}
					s.txs = append(s.txs, t)
				}
				stmts = append(stmts, s)
			}
			checkStmts(c, stmts...)
		})
		maxP := r.Pick(4, 5)
		r.Explore("pages", fmt.Sprintf("a stream of two statements, cut at every position into two pages, and at every tag boundary into up to %d pages, merged in every order of arguments and every nesting", maxP), 0, func(c *engine.Ctx) {
			t1, t2, t3 := baseTx(), baseTx(), baseTx()
			t2.desc, t2.mark, t3.amt = nil, "D", "7,77"
			s1, s2 := baseStmt(t1, t2), baseStmt(t3)
			s2.acct = "999"
			stmts := []mtStmt{s1, s2}
			text := mtText(stmts)
			var cuts []int
			if c.Bool("bytes") {
				cuts = []int{c.Choose(len(text)+1, "cut")}
			} else {
				var bounds []int
				for i := range text {
					if strings.HasPrefix(text[i:], nl+":") {
						bounds = append(bounds, i)
					}
				}
				k := 2 + c.Choose(maxP-1, "pages")
				p := 0
				for j := 1; j < k && p < len(bounds); j++ {
					p += c.Choose(len(bounds)-p, "bound")
					cuts = append(cuts, bounds[p])
				}
			}
			var parts []string
			last := 0
			for _, p := range cuts {
				parts = append(parts, text[last:p])
				last = p
			}
			parts = append(parts, text[last:])
			var pages []*swift.MT940Messages
			for _, p := range parts {
				// a page has room behind it, as one read from an answer
				pages = append(pages, swift.NewMT940Messages(append(make([]byte, 0, len(text)+64), p...)))
			}
			var merged *swift.MT940Messages
			if c.Bool("nested") {
				// the way pages arrive: the rest is merged first
				merged = pages[len(pages)-1]
				for i := len(pages) - 2; i >= 0; i-- {
					// the message created last is the merged rest
					merged = swift.MergeMT940Messages(merged, pages[i])
				}
			} else {
				args := append([]*swift.MT940Messages(nil), pages...)
				for i := range args {
					j := i + c.Choose(len(args)-i, "perm")
					args[i], args[j] = args[j], args[i]
				}
				merged = swift.MergeMT940Messages(args...)
			}
			if string(merged.Data) != text {
				c.Fail("page-order", "pages %q merge to %q", parts, merged.Data)
			}
			for i, p := range parts {
				if string(pages[i].Data) != p {
					c.Fail("page-changed", "merging changed page %q to %q", p, pages[i].Data)
				}
			}
			swift.MergeMT940Messages(pages[0], swift.NewMT940Messages([]byte("\r\n:20:OTHER\r\n-")))
			if string(merged.Data) != text {
				c.Fail("merged-changed", "merging the first page with another one turns the merged %q into %q", text, merged.Data)
			}
			got, err := decodeMT(c, string(merged.Data))
			if err != nil {
				c.Fail("pages-rejected", "%q: %v", merged.Data, err)
			}
			sameTx(c, "pages", text, got, mtWant(stmts))
			c.State(strings.Join(parts, "|"))
			c.Validated()
		})
		r.ExploreBetween("damaged", "every stream of up to four statements in which any subset is unreadable: an error is reported, nothing is dropped in silence", 0, func(c *engine.Ctx) {
			n := 1 + c.Choose(4, "n")
			text := ""
			damaged := false
			for i := 0; i < n; i++ {
				s := baseStmt(baseTx(), baseTx()).text()
				switch c.Choose(6, "damage") {
				case 1:
					s = strings.Replace(s, ":61:160314", ":61:169914", 1)
				case 2:
					s = strings.Replace(s, "12,34", "12,34,5", 1)
				case 3:
					s = strings.Replace(s, ":60F:C160310EUR2187,95", ":60F:C16", 1)
				case 4:
					s = strings.Replace(s, ":25:10020030/1234567", ":25:xx", 1)
				case 5:
					s = strings.Replace(s, ":28C:5/1", ":28C:x", 1)
				default:
					text += s
					continue
				}
				damaged = true
				text += s
			}
			got, err := decodeMT(c, text)
			if damaged && err == nil {
				c.Fail("silent-damage", "the damaged stream %q is accepted as %d transactions", text, len(got))
			}
			if damaged && len(got) != 0 && len(got) == 2*n {
				c.Fail("invented", "the damaged stream %q yields %d transactions", text, len(got))
			}
			if !damaged && (err != nil || len(got) != 2*n) {
				c.Fail("rejected", "%q: %d transactions, error %v", text, len(got), err)
			}
			c.State(fmt.Sprint(damaged, err))
		})
	})

	engine.Register("C16", func(r *engine.Runner) {
		full := baseStmt(baseTx(), baseTx())
		full.txs[0].bankRef, full.txs[0].info = "55555", "OCMT/EUR409,03/"
		full.trailer = nl + ":64:C160316EUR5,00" + nl + ":65:D160317EUR6,00" + nl + ":86:166?00Hinweis"
		text := strings.Replace(full.text(), nl+":25:", nl+":21:NONREF"+nl+":25:", 1)
		alpha := "\r\n:-?/,+@'N0129DCRFEa \x00\xe4"
		r.Explore("mutations", fmt.Sprintf("a statement with every field (%d bytes): every prefix, suffix and infix removed, every byte replaced by and preceded by each of %d bytes", len(text), len(alpha)), 0, func(c *engine.Ctx) {
			var s string
			switch c.Choose(4, "kind") {
			case 0:
				i := c.Choose(len(text)+1, "i")
				j := i + c.Choose(len(text)+1-i, "j")
				s = text[:i] + text[j:]
			case 1:
				i := c.Choose(len(text), "i")
				j := i + c.Choose(len(text)+1-i, "j")
				s = text[i:j]
			case 2:
				i := c.Choose(len(text), "i")
				s = text[:i] + string(alpha[c.Choose(len(alpha), "b")]) + text[i+1:]
			case 3:
				i := c.Choose(len(text)+1, "i")
				s = text[:i] + string(alpha[c.Choose(len(alpha), "b")]) + text[i:]
			}
			_, err := decodeMT(c, s)
			c.State(fmt.Sprint(err == nil))
			c.Validated()
		})
		lines := strings.SplitAfter(strings.TrimPrefix(strings.TrimSuffix(text, nl+"-"), nl), nl)
		r.Explore("lines", "the lines of that statement with every subset of them missing, and with every pair swapped or repeated", 0, func(c *engine.Ctx) {
			var out []string
			if c.Bool("subset") {
				for _, l := range lines {
					if c.Bool("keep") {
						out = append(out, l)
					}
				}
			} else {
				out = append(out, lines...)
				i, j := c.Choose(len(lines), "i"), c.Choose(len(lines), "j")
				if c.Bool("repeat") {
					out = append(out[:j:j], append([]string{lines[i]}, out[j:]...)...)
				} else {
					out[i], out[j] = out[j], out[i]
				}
			}
			s := nl + strings.TrimSuffix(strings.Join(out, ""), nl) + nl + "-"
			if c.Bool("twice") {
				s += text
			}
			_, err := decodeMT(c, s)
			c.State(fmt.Sprint(len(out), err == nil))
			c.Validated()
		})
		toks := []string{nl, ":20:", ":25:", ":28C:", ":60F:", ":61:", ":62F:", ":86:", "-", "C160314EUR1,00", "160314", "0315D1,NTRF", "?20", "?", "1/2", "A"}
		depth := r.Pick(5, 6)
		r.Explore("token-strings", fmt.Sprintf("every string of up to %d of %d tokens of the format", depth, len(toks)), 0, func(c *engine.Ctx) {
			n := c.Choose(depth+1, "n")
			s := nl
			for i := 0; i < n; i++ {
				s += toks[c.Choose(len(toks), "t")]
			}
			if c.Bool("end") {
				s += nl + "-"
			}
			_, err := decodeMT(c, s)
			c.State(fmt.Sprint(n, err == nil))
			c.Validated()
		})
		tags := []func() interface{ Unmarshal([]byte) error }{
			func() interface{ Unmarshal([]byte) error } { return &swift.AccountTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.StatementNumberTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.BalanceTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.TransactionTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.CustomFieldTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.AlphaNumericTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.NumberTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.FloatTag{} },
			func() interface{ Unmarshal([]byte) error } { return &swift.MT940{} },
		}
		small := "1609N,CDR?2/:\r\n-"
		vd := r.Pick(4, 5)
		r.Explore("tag-values", fmt.Sprintf("every value of up to %d bytes over %d characters for every tag kind, with and without a valid beginning", vd, len(small)), 0, func(c *engine.Ctx) {
			k := c.Choose(len(tags), "tag")
			pre := engine.Of(c, "prefix", "", ":61:160314", ":86:166?20", ":86:", ":60F:C160314", ":61:1603140315CR1,00NTRFX", ":25:", ":")
			n := c.Choose(vd+1, "n")
			b := []byte(pre)
			for i := 0; i < n; i++ {
				b = append(b, small[c.Choose(len(small), "b")])
			}
			var err error
			t := tags[k]()
			if p := engine.Guard(func() { err = t.Unmarshal(b) }); p != "" {
				c.Fail(fmt.Sprintf("tag-panic:%T:%s", t, p), "%T: decoding %q panics: %s", t, b, p)
			}
			c.State(fmt.Sprint(k, n, err == nil))
			c.Validated()
		})
	})
}
