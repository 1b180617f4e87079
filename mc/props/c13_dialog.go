package props

import (
	"fmt"
	"strings"
	"sync"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// splitOn takes a text apart at a separator that is neither escaped nor
// inside binary data.
func splitOn(s string, sep byte) []string {
	var out []string
	cur := ""
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '?' && i+1 < len(s):
			cur += s[i : i+2]
			i++
		case s[i] == '@':
			k := strings.IndexByte(s[i+1:], '@')
			n := 0
			if k < 0 {
				cur += s[i:]
				return append(out, cur)
			}
			k += i + 1
			fmt.Sscan(s[i+1:k], &n)
			if k+1+n > len(s) {
				n = len(s) - k - 1
			}
			cur += s[i : k+1+n]
			i = k + n
		case s[i] == sep:
			out = append(out, cur)
			cur = ""
		default:
			cur += s[i : i+1]
		}
	}
	return append(out, cur)
}

var otherIDs = []string{"HIRMG", "HIRMS", "HISYN", "HIUPA", "HIUPD", "HIBPA", "HIKIM", "HIPINS", "HITANS", "HITAN", "HIKAZ", "HISAL", "HIPRO", "HIKIF", "HISHV", "HIKOM", "HNHBK", "HNHBS", "HNVSD", "HNSHK", "HNSHA", "HIXYZ", "HIXYZS", ""}

// mutants are the ways in which the segments of an answer are changed.
func mutants(body []string, contents []string) [][]string {
	var out [][]string
	with := func(i int, segs ...string) {
		b := append([]string(nil), body[:i]...)
		out = append(out, append(append(b, segs...), body[i+1:]...))
	}
	out = append(out, nil, append(append([]string(nil), body...), "'"), append([]string{"x"}, body...), append(append([]string(nil), body...), body...))
	for i, s := range body {
		es := splitOn(strings.TrimSuffix(s, "'"), '+')
		h := strings.Split(es[0], ":")
		tail := strings.Join(es[1:], "+")
		with(i)
		with(i, s, s)
		with(i, strings.TrimSuffix(s, "'"))
		out = append(out, append(append([]string(nil), body[:i]...), s))
		for _, id := range otherIDs {
			if id != h[0] {
				with(i, strings.Join(append([]string{id}, h[1:]...), ":")+"+"+tail+"'")
			}
		}
		for _, v := range []string{"", "x", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "99"} {
			if v != h[2] {
				with(i, strings.Join(append([]string{h[0], h[1], v}, h[3:]...), ":")+"+"+tail+"'")
			}
		}
		for _, ref := range []string{"", ":", ":x", ":0", ":999", ":-1"} {
			with(i, strings.Join(h[:3], ":")+ref+"+"+tail+"'")
		}
		for k := 1; k < len(es); k++ {
			with(i, strings.Join(es[:k], "+")+"'")
		}
		for k := 1; k < len(es); k++ {
			put := func(e string) {
				c := append([]string(nil), es...)
				c[k] = e
				with(i, strings.Join(c, "+")+"'")
			}
			for _, d := range contents {
				put(d)
			}
			ms := splitOn(es[k], ':')
			for j := 1; j < len(ms) && j < 8; j++ {
				put(strings.Join(ms[:j], ":"))
			}
			for j := 0; j < len(ms) && j < 8 && len(ms) > 1; j++ {
				for _, d := range []string{"", "x", "@1@x", " ", "-1"} {
					m := append([]string(nil), ms...)
					m[j] = d
					put(strings.Join(m, ":"))
				}
			}
		}
	}
	return out
}

// reframed are the ways in which the envelope of an answer is damaged.
func reframed(text string, step int) []bank.Reply {
	var out []bank.Reply
	add := func(t string) { out = append(out, bank.Reply{Text: t}) }
	segs := splitOn(strings.TrimSuffix(text, "'"), '\'')
	for i := range segs {
		b := append([]string(nil), segs[:i]...)
		add(strings.Join(append(b, segs[i+1:]...), "'") + "'")
		add(strings.Join(append(append(append([]string(nil), segs[:i+1]...), segs[i]), segs[i+1:]...), "'") + "'")
		add(strings.Join(segs[:i], "'"))
		es := splitOn(segs[i], '+')
		for k := 0; k < len(es); k++ {
			for _, d := range []string{"", "x", "0", "1", "-1", "@0@", "@3@abc", "@5@abc'x", "@99@x", "a:b", "999", "300", "220", "99999999999999999999"} {
				c := append([]string(nil), es...)
				c[k] = d
				if k == 0 {
					c[0] = strings.Split(es[0], ":")[0] + d
				}
				e := append([]string(nil), segs...)
				e[i] = strings.Join(c, "+")
				add(strings.Join(e, "'") + "'")
			}
			if k > 0 {
				e := append([]string(nil), segs...)
				e[i] = strings.Join(es[:k], "+")
				add(strings.Join(e, "'") + "'")
			}
		}
	}
	for n := 0; n < len(text); n += step {
		add(text[:n])
	}
	add("'")
	add("\x00")
	add(strings.Repeat("'", 50))
	add(strings.Repeat("+", 50))
	add("<html><body>Bad gateway</body></html>")
	out = append(out, bank.Reply{Body: []byte("<html>")}, bank.Reply{Body: []byte("===")}, bank.Reply{Body: []byte{}}, bank.Reply{BodyErr: fmt.Errorf("broken"), Text: text})
	return out
}

var (
	memoMu sync.Mutex
	memos  = map[string]any{}
)

func memo[T any](key string, f func() T) T {
	memoMu.Lock()
	defer memoMu.Unlock()
	if v, ok := memos[key]; ok {
		return v.(T)
	}
	v := f()
	memos[key] = v
	return v
}

type cuse struct {
	name string
	op   *cop
	run  func(w *cworld) error
}

// answersC13 damages the answers to the operations of a client.
func answersC13(r *engine.Runner) {
	contents := []string{"", "x", "0", "@3@abc", "a:b:c", "99999999999999999999", " ", "-1", ":", "?", "J", "20150231"}
	if r.Thorough() {
		contents = damage
	}
	greet := []string{wire.S("HIKIM", 11, 2, 3, "Betreff", "Text"), bank.TANS("910", "911"), bank.PINS("HKSAL", "N", "HKKAZ", "J"), bank.RMS(4, bank.Ack(3920, "Zugelassene Verfahren", "910", "911"), bank.Ack(3050, "BPD nicht mehr aktuell"))}
	uses := []cuse{
		{name: "Accounts", run: func(w *cworld) error { _, err := w.cl.Accounts(); return err }},
		{name: "AccountInformation", run: func(w *cworld) error { return w.cl.AccountInformation(usualArgs().acct, true) }},
		{name: "CommunicationAccess", run: func(w *cworld) error {
			_, err := (&client.AnonymousClient{Client: w.cl}).CommunicationAccess(domain.BankID{CountryCode: 280, ID: "1"}, domain.BankID{CountryCode: 280, ID: "2"}, 3)
			return err
		}},
	}
	for _, o := range cops() {
		o := o
		uses = append(uses, cuse{name: o.name, op: o, run: func(w *cworld) error { _, err := o.run(w, usualArgs()); return err }})
	}
	explore := func(name, text string, devs int, contents []string) {
		r.Explore(name, text, devs, func(c *engine.Ctx) {
			u := uses[c.Choose(len(uses), "operation")]
			version := engine.Of(c, "protocol", 220, 300)
			var params []string
			segVersion := 0
			if u.op != nil {
				segVersion = engine.Of(c, "version", u.op.impl...)
				params = append(params, bank.Param(u.op.param, segVersion))
			}
			w := newClientWorld(c, version, params)
			w.greet = greet
			w.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
				body := []string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}
				switch {
				case u.op == nil:
					body = append(body, wire.S("HIKIF", 4, 3, 4, wire.G{"101", "", "280", wBank}, "1", "x"))
				case k == 0 && u.op.pages:
					body[1] = bank.RMS(4, bank.Ack(20, "ok"), bank.Ack(3040, "more", "M1"))
					body = append(body, u.op.render(4, segVersion, []int{1})...)
				case k > 1:
					return nil, &bank.Reply{Err: fmt.Errorf("enough")} // a damaged mark may repeat
				default:
					body = append(body, u.op.render(4, segVersion, []int{2})...)
				}
				return body, nil
			}
			// openings and ends are damaged for some of the operations only
			again := false
			mine := func(kind string) bool {
				if again {
					return false
				}
				return kind == "order" || u.name == "Accounts" || u.name == "CommunicationAccess"
			}
			what := ""
			w.tamper = func(kind string, body []string) []string {
				if !mine(kind) {
					return body
				}
				ms := memo(name+strings.Join(body, "\x01"), func() [][]string { return mutants(body, contents) })
				if k := c.Dev(1+len(ms), kind+" answer"); k > 0 {
					what += fmt.Sprintf(" %s:%s", kind, strings.Join(ms[k-1], ""))
					return ms[k-1]
				}
				return body
			}
			w.retext = func(kind, text string) *bank.Reply {
				if !mine(kind) {
					return nil
				}
				ms := memo(text, func() []bank.Reply { return reframed(text, r.Pick(23, 1)) })
				if k := c.Dev(1+len(ms), kind+" envelope"); k > 0 {
					what += fmt.Sprintf(" %s envelope:%s%s", kind, ms[k-1].Text, ms[k-1].Body)
					return &ms[k-1]
				}
				return nil
			}
			var err error
			c.Logf("%s", u.name)
			if p := engine.Guard(func() { err = u.run(w) }); p != "" {
				c.Fail("answer:"+frame(p), "%s panics: %s; damaged:%s", u.name, p, what)
			}
			c.Logf("%v", err)
			c.State(fmt.Sprint(u.name, version, segVersion, what))
			c.Validated()
			// the client is still usable
			again = true
			if p := engine.Guard(func() { err = u.run(w) }); p != "" {
				c.Fail("again:"+frame(p), "%s panics when it is run again: %s; damaged:%s", u.name, p, what)
			}
		})
	}
	explore("damaged answers", "8 operations, HBCI 2.2 and FinTS 3.0, each version, one damage to one of the answers: a segment dropped, repeated, renamed, in another version, without reference, cut, with other contents, or the envelope damaged or cut; and the operation run once more", 1, contents)
}
