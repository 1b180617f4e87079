package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

// C26: printed tables show every value in its own column.

// money26 is an amount in cents.
type money26 struct {
	cents int64
	cur   string
}

func (m money26) amount() domain.Amount {
	return domain.Amount{Amount: float64(m.cents) / 100, Currency: m.cur}
}

func (m money26) String() string {
	sign, c := "", m.cents
	if c < 0 {
		sign, c = "-", -c
	}
	return fmt.Sprintf("%s%d.%02d %s", sign, c/100, c%100, m.cur)
}

var (
	texts26 = func() []string {
		t := []string{"Giro", ""}
		for _, n := range []int{7, 8, 15, 16, 19, 20, 21, 23, 24, 25, 40} {
			s := strings.Repeat("Kontobez ", 5)[:n-1] + "#"
			t = append(t, s)
		}
		return append(t, "Müller & Söhne GbR", "20 % 100%d %s", "a|b", "-")
	}()
	money26s = []money26{{123456, "EUR"}, {0, "EUR"}, {-1, "EUR"}, {99, "USD"}, {-123456789012, "EUR"}, {100000000, "JPY"}, {7, ""}}
	days26   = []time.Time{
		time.Date(2016, 3, 14, 0, 0, 0, 0, time.UTC),
		time.Date(2015, 12, 31, 23, 59, 59, 0, time.UTC),
		time.Date(999, 1, 2, 0, 0, 0, 0, time.UTC),
	}
)

func day26(t time.Time) string { return fmt.Sprintf("%04d-%02d-%02d", t.Year(), t.Month(), t.Day()) }

// table26 checks lines against the cells they have to show; the columns begin
// where their titles begin.
func table26(c *engine.Ctx, out string, lines []string, titles []string, rows [][]string) {
	if len(lines) != len(rows)+1 {
		c.Fail("lines", "a table of %d lines for %d entries:\n%s", len(lines)-1, len(rows), out)
	}
	head := []rune(lines[0])
	var starts []int
	at := 0
	for _, t := range titles {
		i := strings.Index(string(head[at:]), t)
		if i < 0 {
			c.Fail("title", "no column %q:\n%s", t, out)
		}
		at += len([]rune(string(head[at:])[:i]))
		starts = append(starts, at)
		at += len([]rune(t))
	}
	for k, row := range rows {
		line := []rune(lines[k+1])
		for i, want := range row {
			from, to := starts[i], len(line)
			if i+1 < len(starts) && starts[i+1] < to {
				to = starts[i+1]
				// the last value of a line may go on
				if strings.Join(row[i+1:], "") == "" {
					to = len(line)
				}
			}
			last := i+1 < len(row) && to == len(line) && strings.Join(row[i+1:], "") == ""
			got := ""
			if from < to {
				got = string(line[from:to])
			}
			if strings.TrimRight(got, " \t|") != strings.TrimRight(want, " \t|") {
				c.Fail("cell", "entry %d shows %q as %s, it is %q:\n%s", k+1, got, titles[i], want, out)
			}
			if i > 0 && want != "" && from > 0 && from <= len(line) && !strings.ContainsRune(" \t|", line[from-1]) {
				c.Fail("merged", "entry %d: %s %q is not separated from the column before:\n%s", k+1, titles[i], want, out)
			}
			if last {
				break
			}
		}
	}
}

// expand26 replaces tabs as a terminal does.
func expand26(s string) string {
	var b strings.Builder
	col := 0
	for _, r := range s {
		switch r {
		case '\n':
			col = 0
			b.WriteRune(r)
		case '\t':
			for {
				b.WriteByte(' ')
				col++
				if col%8 == 0 {
					break
				}
			}
		default:
			b.WriteRune(r)
			col++
		}
	}
	return b.String()
}

func lines26(s string) []string {
	return strings.Split(strings.Trim(s, "\n"), "\n")
}

func init() {
	engine.Register("C26", func(r *engine.Runner) {
		devs := r.Pick(2, 3)
		maxRows := r.Pick(2, 3)
		text := func(c *engine.Ctx, label string) string {
			if s, ok := c.Tag.(*sweep26); ok {
				if s.label == label {
					return s.text
				}
				return texts26[0]
			}
			return texts26[c.Dev(len(texts26), label)]
		}
		money := func(c *engine.Ctx, label string) money26 {
			if s, ok := c.Tag.(*sweep26); ok {
				if s.label == label {
					return s.money
				}
				return money26s[0]
			}
			return money26s[c.Dev(len(money26s), label)]
		}
		day := func(c *engine.Ctx, label string) time.Time {
			if s, ok := c.Tag.(*sweep26); ok {
				if s.label == label {
					return s.day
				}
				return days26[0]
			}
			return days26[c.Dev(len(days26), label)]
		}
		// maybe is an amount that may be missing
		maybe := func(c *engine.Ctx, label string) (money26, bool) {
			if s, ok := c.Tag.(*sweep26); ok {
				return s.money, s.label == label
			}
			if k := c.Dev(1+len(money26s), label); k > 0 {
				return money26s[k-1], true
			}
			return money26{}, false
		}
		// form tells whether an entry is printed by itself, and how many are printed
		form := func(c *engine.Ctx) (bool, int) {
			if c.Bool("single") {
				return true, 1
			}
			if s, ok := c.Tag.(*sweep26); ok {
				return false, s.rows
			}
			return false, c.Choose(maxRows+1, "entries")
		}

		what := fmt.Sprintf("tables of up to %d entries and single entries in which at most %d values are unusual: texts of every length around the column widths, with special characters, amounts of every sign and size, missing limits", maxRows, devs)
		balances := func(c *engine.Ctx) {
			sepa := c.Bool("sepa")
			single, n := form(c)
			var rows [][]string
			var plain []domain.AccountBalance
			var inter []domain.SepaAccountBalance
			marked := false
			for i := 0; i < n; i++ {
				product, bank, account := text(c, "product"), text(c, "bank"), text(c, "account")
				d := day(c, "day")
				booked := money(c, "amount")
				bal := domain.Balance{Amount: booked.amount(), TransmissionDate: d}
				shown := booked.String()
				var earmarked *domain.Balance
				if !single {
					if m, ok := maybe(c, "earmarked"); ok {
						earmarked = &domain.Balance{Amount: m.amount(), TransmissionDate: d}
						if m.cents != 0 {
							shown += fmt.Sprintf(" (%s)*", m)
							marked = true
						}
					}
				}
				var limit *domain.Amount
				shownLimit := "-"
				if m, ok := maybe(c, "limit"); ok {
					a := m.amount()
					limit, shownLimit = &a, m.String()
				}
				if single {
					rows = append(rows, []string{bank, account, day26(d), shown})
				} else {
					rows = append(rows, []string{product, bank, account, day26(d), shown, shownLimit})
				}
				plain = append(plain, domain.AccountBalance{ProductName: product, Account: domain.AccountConnection{BankID: bank, AccountID: account}, BookedBalance: bal, EarmarkedBalance: earmarked, CreditLimit: limit})
				inter = append(inter, domain.SepaAccountBalance{ProductName: product, Account: domain.InternationalAccountConnection{BIC: bank, IBAN: account}, BookedBalance: bal, EarmarkedBalance: earmarked, CreditLimit: limit})
			}
			var out string
			titles := []string{"Product Name", "BankID", "AccountID", "BookingDate", "Amount", "Limit"}
			if sepa {
				titles = []string{"Product Name", "BIC", "IBAN", "BookingDate", "Amount", "Limit"}
			}
			if p := engine.Guard(func() {
				switch {
				case sepa && single:
					out = inter[0].String()
				case sepa:
					out = domain.SepaAccountBalances(inter).String()
				case single:
					out = plain[0].String()
				default:
					out = domain.AccountBalances(plain).String()
				}
			}); p != "" {
				c.Fail("panic", "%s", p)
			}
			c.State(out)
			c.Validated()
			c.Logf("%s", out)
			if single {
				titles = titles[1:5]
			}
			lines := lines26(expand26(out))
			if marked {
				if lines[len(lines)-1] != "* earmarked transactions" {
					c.Fail("footnote", "no footnote:\n%s", out)
				}
				lines = lines[:len(lines)-1]
			}
			table26(c, out, lines, titles, limits26(rows, titles))
		}
		accounts := func(c *engine.Ctx) {
			single, n := form(c)
			var rows [][]string
			var infos []domain.AccountInformation
			for i := 0; i < n; i++ {
				bank, account, user, cur := text(c, "bank"), text(c, "account"), text(c, "user"), text(c, "currency")
				name1, name2, product := text(c, "name"), text(c, "second name"), text(c, "product")
				a := domain.AccountInformation{AccountConnection: domain.AccountConnection{BankID: bank, AccountID: account}, UserID: user, Currency: cur, Name1: name1, Name2: name2, ProductID: product}
				shown := "-"
				if m, ok := maybe(c, "limit"); ok {
					a.Limit = &domain.AccountLimit{Kind: "E", Amount: m.amount()}
					shown = "E: " + m.String()
				}
				infos = append(infos, a)
				rows = append(rows, []string{bank, account, user, cur, name1 + ", " + name2, product, shown})
			}
			var out string
			if p := engine.Guard(func() {
				if single {
					out = infos[0].String()
				} else {
					out = domain.AccountInfos(infos).String()
				}
			}); p != "" {
				c.Fail("panic", "%s", p)
			}
			c.State(out)
			c.Validated()
			c.Logf("%s", out)
			titles := []string{"BankID", "AccountID", "UserID", "Currency", "Name", "ProductID", "Limit"}
			table26(c, out, lines26(expand26(out)), titles, limits26(rows, titles))
		}
		transactions := func(c *engine.Ctx) {
			single, n := form(c)
			var rows [][]string
			var ts []domain.AccountTransaction
			var first, last []string
			for i := 0; i < n; i++ {
				d := day(c, "day")
				amount := money(c, "amount")
				booking, bank, account, name, purpose := text(c, "booking text"), text(c, "bank"), text(c, "account"), text(c, "name"), text(c, "purpose")
				before, after := money(c, "before"), money(c, "after")
				bd, ad := day(c, "day before"), day(c, "day after")
				t := domain.AccountTransaction{
					Account: domain.AccountConnection{BankID: "own bank", AccountID: fmt.Sprintf("own %d", i)},
					Amount:  amount.amount(), BookingDate: d, ValutaDate: d.AddDate(0, 0, 3),
					BookingText: booking, BankID: bank, AccountID: account, Name: name, Purpose: purpose,
					AccountBalanceBefore: domain.Balance{Amount: before.amount(), TransmissionDate: bd},
					AccountBalanceAfter:  domain.Balance{Amount: after.amount(), TransmissionDate: ad},
				}
				ts = append(ts, t)
				if single {
					rows = append(rows, []string{day26(d), amount.String(), bank, account, purpose})
				} else {
					rows = append(rows, []string{day26(d), booking, amount.String(), bank, account, name, purpose})
				}
				if i == 0 {
					first = []string{"Transactions for account own bank/own 0", fmt.Sprintf("Balance at %s: %s", day26(bd), before)}
				}
				last = []string{fmt.Sprintf("Balance at %s: %s", day26(ad), after)}
			}
			var out string
			if p := engine.Guard(func() {
				if single {
					out = ts[0].String()
				} else {
					out = domain.AccountTransactions(ts).String()
				}
			}); p != "" {
				c.Fail("panic", "%s", p)
			}
			c.State(out)
			c.Validated()
			c.Logf("%s", out)
			lines := lines26(expand26(out))
			titles := []string{"BookingDate", "Booking Text", "Amount", "BankID", "AccountID", "Name", "Purpose"}
			if single {
				titles = []string{"BookingDate", "Amount", "BankID", "AccountID", "Purpose"}
			} else if n > 0 {
				if len(lines) < 4 {
					c.Fail("lines", "too few lines:\n%s", out)
				}
				got := []string{strings.TrimSpace(lines[0]), strings.TrimSpace(lines[1]), strings.TrimSpace(lines[len(lines)-1])}
				want := append(first, last...)
				for i := range want {
					if got[i] != strings.TrimSpace(want[i]) {
						c.Fail("balance-line", "%q is shown as %q:\n%s", want[i], got[i], out)
					}
				}
				lines = lines[2 : len(lines)-1]
			}
			table26(c, out, lines, titles, rows)
		}
		r.Explore("balances", what, devs, balances)
		r.Explore("accounts", what, devs, accounts)
		r.Explore("transactions", what, devs, transactions)
		cents := int64(r.Pick(30000, 300000))
		years := r.Pick(20, 200)
		rows := r.Pick(300, 1500)
		labels := [][3][]string{
			{{"product", "bank", "account"}, {"amount", "earmarked", "limit"}, {"day"}},
			{{"bank", "account", "user", "currency", "name", "second name", "product"}, {"limit"}, nil},
			{{"booking text", "bank", "account", "name", "purpose"}, {"amount", "before", "after"}, {"day", "day before", "day after"}},
		}
		r.Explore("every value", fmt.Sprintf("the three tables and their single entries with every amount up to %d cents of both signs and around each power of ten, every day of %d years, every length of a text up to 200, every number of entries up to %d: each by itself, in each place", cents, years, rows), 0, func(c *engine.Ctx) {
			k := c.Choose(3, "table")
			s := &sweep26{rows: 1, money: money26s[0], day: days26[0], text: texts26[0]}
			kind := c.Choose(4, "what")
			if kind < 3 {
				if len(labels[k][kind]) == 0 {
					c.Stop()
				}
				s.label = engine.Of(c, "place", labels[k][kind]...)
			}
			switch kind {
			case 0:
				s.text = strings.Repeat("Kontobez ", 23)[:c.Choose(200, "length")] + "#"
			case 1:
				n := int64(c.Choose(2*int(cents)+1+22*14, "amount")) - cents
				if n > cents {
					n -= cents + 1
					p := int64(1)
					for i := int64(0); i < n/22; i++ {
						p *= 10
					}
					r := n % 22
					n = p + r/2 - 5
					if r%2 == 1 {
						n = -n
					}
				}
				s.money = money26{n, "EUR"}
			case 2:
				s.day = time.Date(2030-years, 1, 1+c.Choose(years*366, "day"), 12, 0, 0, 0, time.UTC)
			case 3:
				s.rows = c.Choose(rows+1, "entries")
			}
			c.Tag = s
			[]func(*engine.Ctx){balances, accounts, transactions}[k](c)
		})
	})
}

// sweep26 is a table in which one value is out of the ordinary.
type sweep26 struct {
	label string
	text  string
	money money26
	day   time.Time
	rows  int
}

// limits26 allows a blank before the mark of a missing limit.
func limits26(rows [][]string, titles []string) [][]string {
	if titles[len(titles)-1] != "Limit" {
		return rows
	}
	var out [][]string
	for _, r := range rows {
		q := append([]string{}, r...)
		if l := len(q) - 1; q[l] == "-" {
			q[l] = " -"
		}
		out = append(out, q)
	}
	return out
}
