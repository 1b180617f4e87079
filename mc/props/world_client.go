package props

import (
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// The same histories one level higher: the operations are those of the client.
// What the client adds to the dialog is when it synchronises, which version of
// an order it chooses, and what it hands out.

// wcop is an operation of the client within the dialog world.
type wcop struct {
	name string
	op   *cop // an order whose version follows from the announcements; nil otherwise
	run  func(w *world) ([]string, error)
}

func worldClientOps() []*wcop {
	out := []*wcop{
		{name: "Accounts", run: func(w *world) ([]string, error) {
			as, err := w.cw.cl.Accounts()
			var ids []string
			for _, a := range as {
				ids = append(ids, a.AccountConnection.AccountID)
			}
			return ids, err
		}},
		{name: "AccountInformation", run: func(w *world) ([]string, error) {
			return nil, w.cw.cl.AccountInformation(usualArgs().acct, true)
		}},
		{name: "CommunicationAccess", run: func(w *world) ([]string, error) {
			a := client.AnonymousClient{Client: w.cw.cl}
			_, err := a.CommunicationAccess(domain.BankID{CountryCode: 280, ID: "1"}, domain.BankID{CountryCode: 280, ID: "2"}, 5)
			return nil, err
		}},
	}
	for _, o := range cops() {
		o := o
		out = append(out, &wcop{name: o.name, op: o, run: func(w *world) ([]string, error) { return o.run(w.cw, usualArgs()) }})
	}
	return out
}

// newClientOf replaces the dialog of a world by a client.
func newWorldClient(c *engine.Ctx, version int, menu func(w *world, kind string, m *wire.Message) []*ans) *world {
	w := newWorld(c, version, menu)
	w.d = nil
	w.ref.pin = "98765"
	cl, err := client.New(client.Config{BankID: wBank, AccountID: wUser, PIN: w.ref.pin, URL: "https://bank.example/hbci", HBCIVersion: version, Transport: w.bank, ProductName: "prod", ProductVersion: "1.0"})
	if err != nil {
		c.Fail("new", "the client cannot be created: %v", err)
	}
	w.cw = &cworld{c: c, version: version, bank: w.bank, cl: cl}
	return w
}

// orderAnswer is what a bank answers to the orders of the client.
func orderAnswer(m *wire.Message) []string {
	for _, o := range cops() {
		if s := m.Find(o.order); s != nil {
			return o.render(5, s.Ver, []int{7})
		}
	}
	if m.Find("HKKIF") != nil {
		return []string{wire.S("HIKIF", 5, 1, 4, "101", "Giro")}
	}
	return nil
}

// best is the version in which an order has to be sent, 0 if there is none.
func (o *cop) best(announced []segment.VersionedSegment) int {
	v := 0
	for _, a := range announced {
		if a.ID != o.param || a.Version <= v {
			continue
		}
		for _, i := range o.impl {
			if i == a.Version {
				v = i
			}
		}
	}
	return v
}

// doClient runs one operation of the client and judges it.
func (w *world) doClient(o *wcop, as aspects) {
	c := w.c
	w.sysBefore = w.ref.sysID
	bpdBefore := w.ref.bpd
	w.op, w.anon = o.name, o.name == "CommunicationAccess"
	n := len(w.steps)
	r := &opResult{op: o.name}
	var out []string
	c.Logf("operation %s", o.name)
	p := engine.Guard(func() {
		out, r.err = o.run(w)
	})
	r.steps = w.steps[n:]
	if p != "" {
		c.Fail("panic:"+o.name, "%s panicked after %s: %s", o.name, describe(r.steps), p)
	}
	c.Logf("  -> %q, %v", out, r.err)
	// an order is chosen when the client knows the bank's parameters, that is
	// before the dialog is opened (and possibly synchronised first)
	w.offered, w.offeredSet = append([]segment.VersionedSegment(nil), w.ref.params...), bpdBefore != 0
	w.judge(r, aspects{numbering: as.numbering, identity: as.identity, params: as.params})
	if !w.offeredSet {
		w.offered = append([]segment.VersionedSegment(nil), w.ref.params...)
	}

	// what had to be exchanged
	var want []string
	i, good := 0, true
	step := func(k string) {
		if !good {
			return
		}
		want = append(want, k)
		if i >= len(r.steps) || r.steps[i].x.Kind != k {
			good = false
			return
		}
		a := r.steps[i].a
		i++
		// however the dialog of an order ends
		good = !a.Fault && !a.isErr()
	}
	sync := func() { step("sync"); step("end") }
	sys := w.sysBefore
	var version int
	switch {
	case w.anon:
		step("init")
		opened := good
		step("order")
		if opened {
			good = true
			step("end")
		}
	default:
		if bpdBefore == 0 {
			sync()
			sys = ""
		}
		send := good
		if send && o.op != nil {
			version = o.op.best(w.offered)
			send = version > 0
			if !send && r.err == nil && as.params {
				c.Fail("client:unannounced", "%s succeeds, the bank announced %v", o.name, w.offered)
			}
		}
		if send {
			if sys == "0" {
				sync()
			}
			step("init")
			opened := good
			if o.name != "Accounts" {
				step("order")
			}
			if opened {
				good = true
				step("end")
			}
		}
	}
	if as.lifecycle && i != len(r.steps) || as.lifecycle && len(want) != i {
		c.Fail("client:lifecycle:"+o.name, "%s (err %v) exchanged %s, expected %v; announced %v", o.name, r.err, describe(r.steps), want, w.offered)
	}
	if as.params {
		for _, s := range r.steps {
			if s.x.Kind != "order" || o.op == nil {
				continue
			}
			if seg := s.x.Msg.Find(o.op.order); seg == nil || seg.Ver != version {
				c.Fail("client:version:"+o.name, "%s sends %v, the announcements %v ask for version %d", o.name, s.x.Msg.IDs(), w.offered, version)
			}
		}
		if o.name == "Accounts" && r.err == nil && strings.Join(out, ",") != strings.Join(w.ref.accts, ",") {
			c.Fail("client:accounts", "after %s Accounts hands out %v, last delivered were %v", describe(r.steps), out, w.ref.accts)
		}
	}
	c.Validated()
}

func worldClientSpaces(r *engine.Runner, as aspects) {
	ops := worldClientOps()
	seqs := func(name string, depth, devs int, menu func(w *world, kind string, m *wire.Message) []*ans) {
		r.Explore(name, fmt.Sprintf("HBCI 2.2 and FinTS 3.0; all sequences of %d of the client's %d operations; the bank's parameters stay or get the next or the previous version before each; every bank answer from the menu with at most %d deviations from the regular answer", depth, len(ops), devs), devs, func(c *engine.Ctx) {
			v := engine.Of(c, "version", 220, 300)
			w := newWorldClient(c, v, menu)
			for i := 0; i < depth; i++ {
				if i > 0 {
					by := engine.Of(c, "parameters change", 0, 1, -1)
					w.banksV, w.banksU = w.banksV+by, w.banksU+by
				}
				w.doClient(ops[c.Choose(len(ops), fmt.Sprintf("op%d", i))], as)
			}
		})
	}
	seqs("client, two operations", 2, 1, smallMenu)
	seqs("client, three operations", 3, 0, smallMenu)
	if r.Thorough() {
		seqs("client, one operation", 1, 2, fullMenu)
		seqs("client, two operations and two deviations", 2, 2, smallMenu)
		seqs("client, three operations and one deviation", 3, 1, smallMenu)
		seqs("client, four operations", 4, 0, smallMenu)
	}
}
