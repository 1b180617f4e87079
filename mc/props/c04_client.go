package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// C04, the operations of the client: success exactly when every deciding
// exchange was accepted, and errors that name what the bank reported.

// verdict04 is one way of answering an exchange.
type verdict04 struct {
	name  string
	acks  []string // replaces the whole answer
	more  []string // is added to the answer
	plain bool     // without the encryption envelope
	named []string // what the error has to name
	reply func(good string) bank.Reply
}

func verdicts04() []verdict04 {
	ok := bank.Ack(10, "Nachricht entgegengenommen")
	return []verdict04{
		{name: "usual"},
		{name: "error of the message", acks: []string{bank.RMG(bank.Ack(9050, "Die Nachricht enthaelt Fehler"))}, named: []string{"9050", "Die Nachricht enthaelt Fehler"}},
		{name: "error of a segment", acks: []string{bank.RMG(ok), bank.RMS(4, bank.Ack(9010, "Auftrag abgelehnt"))}, named: []string{"9010", "Auftrag abgelehnt"}},
		{name: "two errors in two segments", acks: []string{bank.RMG(bank.Ack(3060, "Warnungen")), bank.RMS(3, bank.Ack(20, "ok"), bank.Ack(9210, "Fehler: a+b")), bank.RMS(4, bank.Ack(9340, "Pin falsch"))}, named: []string{"9210", "Fehler: a+b", "9340", "Pin falsch"}},
		{name: "error beside the results", more: []string{bank.RMS(4, bank.Ack(9999, "doch nicht"))}, named: []string{"9999", "doch nicht"}},
		{name: "error without encryption", acks: []string{bank.RMG(bank.Ack(9110, "Unbekannter Aufbau"))}, plain: true, named: []string{"9110", "Unbekannter Aufbau"}},
		{name: "broken connection", reply: func(string) bank.Reply { return bank.Reply{Err: errNet} }, named: []string{errNet.Error()}},
		{name: "broken answer", reply: func(g string) bank.Reply { return bank.Reply{Text: g, BodyErr: errNet} }, named: []string{}},
		{name: "web page", reply: func(string) bank.Reply { return bank.Reply{Body: []byte("<html>502 Bad Gateway</html>")} }, named: []string{}},
		{name: "cut answer", reply: func(g string) bank.Reply { return bank.Reply{Text: g[:len(g)-20]} }, named: []string{}},
		{name: "warning", more: []string{bank.RMS(4, bank.Ack(3010, "Hinweis"), bank.Ack(3999, ""))}},
		{name: "unknown code", more: []string{bank.RMS(4, bank.Ack(8999, "unbekannt"), bank.Ack(1, "x"))}},
	}
}

func clientOutcomes(r *engine.Runner) {
	menu := verdicts04()
	type use struct {
		name string
		op   *cop
		run  func(w *cworld) ([]string, error)
		want []string
	}
	uses := []use{
		{name: "Accounts", want: []string{"101", "102"}, run: func(w *cworld) ([]string, error) {
			as, err := w.cl.Accounts()
			var out []string
			for _, a := range as {
				out = append(out, a.AccountConnection.AccountID)
			}
			return out, err
		}},
		{name: "AccountInformation", run: func(w *cworld) ([]string, error) {
			return nil, w.cl.AccountInformation(usualArgs().acct, true)
		}},
		{name: "CommunicationAccess", run: func(w *cworld) ([]string, error) {
			_, err := (&client.AnonymousClient{Client: w.cl}).CommunicationAccess(domain.BankID{CountryCode: 280, ID: "1"}, domain.BankID{CountryCode: 280, ID: "2"}, 3)
			return nil, err
		}},
	}
	for _, o := range cops() {
		o := o
		uses = append(uses, use{name: o.name, op: o, want: []string{o.entry(1), o.entry(2)}, run: func(w *cworld) ([]string, error) { return o.run(w, usualArgs()) }})
	}
	explore := func(space string, n, devs int) {
		r.Explore(space, fmt.Sprintf("all sequences of %d operations out of all 8 of the client, HBCI 2.2 and FinTS 3.0, both pages of paged results; at most %d exchanges answered with errors at every place, failures, or warnings", n, devs), devs, func(c *engine.Ctx) {
			version := engine.Of(c, "protocol", 220, 300)
			params := []string{bank.Param("HISALS", 5), bank.Param("HISALS", 7), bank.Param("HIKAZS", 6), bank.Param("HIKAZS", 7), bank.Param("HIPROS", 4)}
			w := newClientWorld(c, version, params)
			var cur use
			page := 0
			w.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
				body := []string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}
				if cur.op == nil {
					return append(body, wire.S("HIKIF", 4, 3, 4, wire.G{"101", "", "280", wBank}, "1", "x")), nil
				}
				ver := m.Find(cur.op.order).Ver
				if !cur.op.pages {
					return append(body, cur.op.render(4, ver, []int{1, 2})...), nil
				}
				page++
				if page == 1 {
					body[1] = bank.RMS(4, bank.Ack(20, "ok"), bank.Ack(3040, more, "M1"))
				}
				return append(body, cur.op.render(4, ver, []int{page})...), nil
			}
			inner := w.bank.Answer
			var verdict verdict04
			w.tamper = func(kind string, body []string) []string {
				if verdict.acks != nil {
					return verdict.acks
				}
				return append(body[:len(body):len(body)], verdict.more...)
			}
			failed, opening, said := "", "", ""
			var named []string
			w.bank.Answer = func(x *bank.Exchange, n int) bank.Reply {
				if x.Msg == nil {
					return inner(x, n)
				}
				k := c.Dev(len(menu), x.Kind+" answer")
				verdict = menu[k]
				rep := inner(x, n)
				switch {
				case verdict.reply != nil:
					rep = verdict.reply(rep.Text)
				case verdict.plain && rep.Err == nil:
					rep.Text = wire.Plain(version, x.Msg.DialogID, x.Msg.Number, x.Msg.Number, strings.Join(verdict.acks, ""))
				}
				if x.Kind == "sync" || x.Kind == "init" {
					opening = x.Kind
				}
				if k > 0 {
					said += " " + x.Kind + ":" + verdict.name
				}
				// the end of a dialog whose order has been answered decides nothing
				if verdict.named != nil && !(x.Kind == "end" && opening != "sync") {
					failed += " " + x.Kind + ":" + verdict.name
					named = append(named, verdict.named...)
				}
				return rep
			}
			state := fmt.Sprint(version)
			for i := 0; i < n; i++ {
				cur = uses[c.Choose(len(uses), "operation "+strconv.Itoa(i+1))]
				page, failed, said, named = 0, "", "", nil
				var got []string
				var err error
				if p := engine.Guard(func() { got, err = cur.run(w) }); p != "" {
					c.Fail("client-panic:"+frame(p), "%s panics: %s;%s", cur.name, p, said)
				}
				c.Logf("%s = %q, %v;%s", cur.name, got, err, said)
				state += " " + cur.name + said + fmt.Sprint(err != nil)
				if failed != "" {
					if err == nil {
						c.Fail("client-success:"+cur.name, "%s reports success although an exchange failed:%s", cur.name, failed)
					}
					if len(got) > 0 {
						c.Fail("client-partial:"+cur.name, "%s fails and hands out %q", cur.name, got)
					}
					for _, t := range named {
						if !strings.Contains(err.Error(), t) {
							c.Fail("client-error-not-named:"+cur.name, "the error %q of %s does not name %q;%s", err, cur.name, t, failed)
						}
					}
					continue
				}
				if err != nil {
					c.Fail("client-failure:"+cur.name, "%s fails with %q although the bank accepted everything;%s", cur.name, err, said)
				}
				if strings.Join(got, ";") != strings.Join(cur.want, ";") {
					c.Fail("client-result:"+cur.name, "%s hands out %q, the bank sent %q;%s", cur.name, got, cur.want, said)
				}
			}
			c.State(state)
			c.Validated()
		})
	}
	explore("client operations", 1, 2)
	explore("client operations in a row", 2, 1)
	if r.Thorough() {
		explore("client operations in a row, two failures", 2, 2)
		explore("client operations, three failures", 1, 3)
	}
}
