package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// The client world: the high level client against a scripted bank that
// announces whatever segment versions the exploration decides, and answers
// orders with whatever pages it decides.

type cworld struct {
	c       *engine.Ctx
	bank    *bank.Bank
	cl      *client.Client
	version int
	// announced parameter segments, in order
	params []string
	bpd    int      // version of the bank's parameters, 0: 78 and always up to date
	greet  []string // further segments of every opening answer
	// answers to orders; the segments after the message acknowledgement. An
	// answer may also be a complete reply.
	onOrder func(m *wire.Message, n int) ([]string, *bank.Reply)
	orders  []*wire.Message
	bad     string // a request that could not be parsed
	dialogs int
	// changes to an answer before it is sent
	tamper func(kind string, body []string) []string
	retext func(kind, text string) *bank.Reply
}

func newClientWorld(c *engine.Ctx, version int, params []string) *cworld {
	return newClientWorldOf(c, client.Config{BankID: wBank, AccountID: wUser, PIN: "43210", URL: "https://bank.example/", HBCIVersion: version, ProductName: "prod", ProductVersion: "1"}, params)
}

func newClientWorldOf(c *engine.Ctx, conf client.Config, params []string) *cworld {
	w := &cworld{c: c, version: conf.HBCIVersion, params: params, bank: &bank.Bank{}}
	w.bank.Answer = w.answer
	conf.Transport = w.bank
	cl, err := client.New(conf)
	if err != nil {
		c.Fail("new", "the client cannot be created: %v", err)
	}
	w.cl = cl
	return w
}

func (w *cworld) answer(x *bank.Exchange, n int) bank.Reply {
	if x.Msg == nil {
		w.bad = x.Raw
		return bank.Reply{Err: fmt.Errorf("unparseable: %v", x.Err)}
	}
	m := x.Msg
	dlg := m.DialogID
	var body []string
	switch x.Kind {
	case "sync", "init":
		w.dialogs++
		dlg = fmt.Sprintf("D%d", w.dialogs)
		body = append(body, bank.OK())
		if has := m.Find("HKVVB").E(1, 0); has == "0" || w.bpd > 0 && has != strconv.Itoa(w.bpd) {
			v := 78
			if w.bpd > 0 {
				v = w.bpd
			}
			body = append(body, bank.BPA(w.version, v, "Bank"))
			body = append(body, w.params...)
		}
		body = append(body, w.greet...)
		if m.Find("HKVVB").E(2, 0) == "0" {
			body = append(body, bank.UPA(w.version, 4, "KND"), bank.UPD(w.version, "KND", "101"), bank.UPD(w.version, "KND", "102"))
		}
		if x.Kind == "sync" {
			body = append(body, bank.SYN(w.version, "SYS1"))
		}
	case "end":
		body = append(body, bank.OK())
	default:
		w.orders = append(w.orders, m)
		segs, r := w.onOrder(m, len(w.orders)-1)
		if r != nil {
			return *r
		}
		body = segs
	}
	if w.tamper != nil {
		body = w.tamper(x.Kind, body)
	}
	r := bank.Reply{Text: bank.Msg(m, w.version, dlg, body...)}
	if w.retext != nil {
		if t := w.retext(x.Kind, r.Text); t != nil {
			r = *t
		}
	}
	w.c.Logf("  request %d %s %s", n, x.Kind, m.IDs())
	if w.c.Verbose() {
		w.c.Logf("    >> %q\n    << %q", x.Raw, r.Text)
	}
	return r
}

// cargs are the arguments of an operation.
type cargs struct {
	acct     domain.AccountConnection
	iacct    domain.InternationalAccountConnection
	all      bool
	from, to time.Time
	max      int
	mark     string
}

func usualArgs() cargs {
	return cargs{
		acct:  domain.AccountConnection{AccountID: "101", CountryCode: 280, BankID: wBank},
		iacct: domain.InternationalAccountConnection{IBAN: "DE02100000000000000101", BIC: "TESTDEFFXXX", AccountID: "101", BankID: domain.BankID{CountryCode: 280, ID: wBank}},
		from:  dayOf(2015, 1, 2), to: dayOf(2015, 3, 4), max: 10,
	}
}

// cop is an operation of the client.
type cop struct {
	name  string
	order string // the segment it sends
	param string // the segment by which the bank announces it
	impl  []int  // the versions the library implements
	all   []int  // versions a bank may announce
	resp  string
	run   func(w *cworld, a cargs) ([]string, error)
	// entries of one response segment
	render func(num, version int, entries []int) []string
	// what the operation hands out for an entry
	entry func(e int) string
	pages bool // follows continuation marks by itself
	marks bool // accepts a continuation mark
}

func statement(e int) string {
	nl := "\r\n"
	return nl + ":20:STARTUMS" + nl + ":25:10000000/101" + nl + ":28C:1/1" + nl + ":60F:C150101EUR100,00" + nl +
		fmt.Sprintf(":61:1501020102C%d,00N030NONREF", e) + nl + fmt.Sprintf(":86:166?00GUTSCHRIFT?20Zweck %d?32Name", e) + nl + ":62F:C150102EUR101,00" + nl + "-"
}

func renderKaz(num, version int, entries []int) []string {
	if len(entries) == 0 {
		return []string{wire.S("HIKAZ", num, version, 4, wire.Bin(""))}
	}
	var b strings.Builder
	for _, e := range entries {
		b.WriteString(statement(e))
	}
	return []string{wire.S("HIKAZ", num, version, 4, wire.Bin(b.String()))}
}

func renderSal(num, version int, entries []int) []string {
	var out []string
	for i, e := range entries {
		var acct any = wire.G{"101", "", "280", wBank}
		if version >= 7 {
			acct = wire.G{"DE02100000000000000101", "TESTDEFFXXX", "101", "", "280", wBank}
		}
		out = append(out, wire.S("HISAL", num+i, version, 4, acct, "Giro", "EUR", wire.G{"C", wire.Raw(strconv.Itoa(e) + ","), "EUR", "20150102"}))
	}
	return out
}

func renderPro(num, version int, entries []int) []string {
	var out []string
	for i, e := range entries {
		out = append(out, wire.S("HIPRO", num+i, version, 4, wire.G{"D1", "2"}, "3", "20150102", "101112", bank.Ack(20, "entry "+strconv.Itoa(e))))
	}
	return out
}

func txEntries(txs []domain.AccountTransaction) []string {
	var out []string
	for _, t := range txs {
		out = append(out, fmt.Sprintf("%v %s", t.Amount.Amount, t.Purpose))
	}
	return out
}

func txEntry(e int) string { return fmt.Sprintf("%d Zweck %d", e, e) }

func balEntry(e int) string { return fmt.Sprintf("101 %d", e) }

func cops() []*cop {
	upTo := []int{3, 4, 5, 6, 7, 8, 9}
	return []*cop{
		{name: "AccountBalances", order: "HKSAL", param: "HISALS", impl: []int{5, 6}, all: upTo, resp: "HISAL", pages: true, render: renderSal, entry: balEntry,
			run: func(w *cworld, a cargs) ([]string, error) {
				bs, err := w.cl.AccountBalances(a.acct, a.all)
				var out []string
				for _, b := range bs {
					out = append(out, fmt.Sprintf("%s %v", b.Account.AccountID, b.BookedBalance.Amount.Amount))
				}
				return out, err
			}},
		{name: "SepaAccountBalances", order: "HKSAL", param: "HISALS", impl: []int{7, 8}, all: upTo, resp: "HISAL", pages: true, marks: true, render: renderSal, entry: balEntry,
			run: func(w *cworld, a cargs) ([]string, error) {
				bs, err := w.cl.SepaAccountBalances(a.iacct, a.all, a.mark)
				var out []string
				for _, b := range bs {
					out = append(out, fmt.Sprintf("%s %v", b.Account.AccountID, b.BookedBalance.Amount.Amount))
				}
				return out, err
			}},
		{name: "AccountTransactions", order: "HKKAZ", param: "HIKAZS", impl: []int{5, 6}, all: upTo, resp: "HIKAZ", pages: true, marks: true, render: renderKaz, entry: txEntry,
			run: func(w *cworld, a cargs) ([]string, error) {
				txs, err := w.cl.AccountTransactions(a.acct, domain.Timeframe{StartDate: domain.NewShortDate(a.from), EndDate: domain.NewShortDate(a.to)}, a.all, a.mark)
				return txEntries(txs), err
			}},
		{name: "SepaAccountTransactions", order: "HKKAZ", param: "HIKAZS", impl: []int{7}, all: upTo, resp: "HIKAZ", pages: true, marks: true, render: renderKaz, entry: txEntry,
			run: func(w *cworld, a cargs) ([]string, error) {
				txs, err := w.cl.SepaAccountTransactions(a.iacct, domain.Timeframe{StartDate: domain.NewShortDate(a.from), EndDate: domain.NewShortDate(a.to)}, a.all, a.mark)
				return txEntries(txs), err
			}},
		{name: "Status", order: "HKPRO", param: "HIPROS", impl: []int{3, 4}, all: []int{2, 3, 4, 5}, resp: "HIPRO", marks: true, render: renderPro, entry: func(e int) string { return "entry " + strconv.Itoa(e) },
			run: func(w *cworld, a cargs) ([]string, error) {
				st, err := w.cl.Status(a.from, a.to, a.max, a.mark)
				var out []string
				for _, s := range st {
					out = append(out, s.Text)
				}
				return out, err
			}},
	}
}

// perform runs an operation; a panic is a violation.
func (w *cworld) perform(op *cop, a cargs) ([]string, error) {
	var out []string
	var err error
	w.c.Logf("%s", op.name)
	if p := engine.Guard(func() { out, err = op.run(w, a) }); p != "" {
		w.c.Fail(op.name+"-panic", "%s: %s", op.name, p)
	}
	if w.bad != "" {
		w.c.Fail("unparseable", "%s sends %q", op.name, w.bad)
	}
	w.c.Logf("  = %q, %v", out, err)
	return out, err
}
