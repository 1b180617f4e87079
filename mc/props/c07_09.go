package props

import (
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// markAt is the element of an order that carries the continuation mark.
var markAt = map[string]int{"HKSAL": 4, "HKKAZ": 6, "HKPRO": 4}

// without renders an order without its continuation mark, trailing empty
// elements removed.
func without(s *wire.Seg) string {
	var es []string
	for i := 1; i < len(s.DE); i++ {
		if i == markAt[s.ID] {
			es = append(es, "")
			continue
		}
		es = append(es, s.Group(i))
	}
	for len(es) > 0 && es[len(es)-1] == "" {
		es = es[:len(es)-1]
	}
	return fmt.Sprintf("%s:%d+%s", s.ID, s.Ver, strings.Join(es, "+"))
}

// page is one answer of the bank to an order.
type page struct {
	segs  [][]int // the entries of each response segment
	mark  string  // "" on the last page
	place int
	fault int
}

const more = "Es liegen weitere Informationen vor"

// segments renders a page.
func (p page) segments(op *cop, version int) []string {
	rmg := []wire.G{bank.Ack(10, "Nachricht entgegengenommen")}
	rms := []wire.G{bank.Ack(20, "Auftrag ausgefuehrt")}
	if p.mark != "" {
		m := bank.Ack(3040, more, p.mark)
		switch p.place {
		case 0:
			rms = append(rms, m)
		case 1:
			rms = append([]wire.G{m}, rms...)
		case 2: // together with other codes, some with parameters
			rms = []wire.G{bank.Ack(3920, "Zugelassene Verfahren", "910", "911"), bank.Ack(3010, "Keine weiteren", "X"), m, bank.Ack(20, "ok", "Y")}
		case 3:
			rmg = append(rmg, m)
		case 4: // with a second parameter
			rms = append(rms, bank.Ack(3040, more, p.mark, "Z"))
		}
	}
	switch p.fault {
	case 1:
		rms = append(rms, bank.Ack(9010, "Seite nicht verfuegbar"))
	case 2:
		rmg = append(rmg, bank.Ack(9050, "teilweise fehlerhaft"))
	}
	out := []string{bank.RMG(rmg...), bank.RMS(4, rms...)}
	for _, s := range p.segs {
		out = append(out, op.render(4, version, s)...)
	}
	return out
}

func marks() []string {
	return []string{"M1", "0", "a?+b:c'd@e", strings.Repeat("m", 35), "@3@x'y", " ", "J", "2015-01-02 äß"[:10]}
}

// C07: results that come in pages are handed out whole.
func c07(r *engine.Runner) {
	pages := r.Pick(3, 4)
	devs := r.Pick(2, 3)
	r.Explore("pages", fmt.Sprintf("4 operations, each version, HBCI 2.2 and FinTS 3.0, 1 to %d pages; at most %d peculiarities: pages with more or no entries, with several response segments, unusual marks, the mark at other places among the acknowledgements, a mark of the caller, errors and faults on a page", pages, devs), devs, func(c *engine.Ctx) {
		ops := cops()[:4]
		op := ops[c.Choose(len(ops), "operation")]
		version := engine.Of(c, "protocol", 220, 300)
		segVersion := engine.Of(c, "version", op.impl...)
		n := 1 + c.Choose(pages, "pages")
		a := usualArgs()
		if op.marks && c.Dev(2, "mark of the caller") == 1 {
			a.mark = "caller?s+mark"
		}
		a.all = c.Dev(2, "all accounts") == 1
		var ps []page
		var want []string
		failed := false
		next := 1
		for i := 0; i < n; i++ {
			p := page{}
			shapes := [][]int{{1}, {2}, {1, 1}, {3}, {2, 1}, {1, 2, 1}}
			if op.order == "HKKAZ" {
				shapes = append(shapes, []int{}, []int{0}, []int{0, 1}, []int{1, 0}, []int{13}, []int{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})
			}
			if op.order == "HKPRO" {
				shapes = append(shapes, []int{})
			}
			shape := shapes[c.Dev(len(shapes), "shape")]
			for _, k := range shape {
				var es []int
				for ; k > 0; k-- {
					es = append(es, next)
					next++
				}
				p.segs = append(p.segs, es)
			}
			if i+1 < n {
				p.mark = fmt.Sprintf("M%d", i+1)
				if k := c.Dev(1+len(marks()), "mark"); k > 0 {
					p.mark = marks()[k-1]
				}
				p.place = c.Dev(5, "place")
			}
			p.fault = c.Dev(5, "fault")
			if p.fault > 0 && !failed {
				failed = true
			}
			if !failed {
				for _, s := range p.segs {
					for _, e := range s {
						want = append(want, op.entry(e))
					}
				}
			}
			ps = append(ps, p)
			if p.fault > 0 {
				n = i + 1
			}
		}
		c.State(fmt.Sprint(op.name, version, segVersion, ps, a.mark))
		w := newClientWorld(c, version, []string{bank.Param(op.param, segVersion)})
		w.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
			if k >= len(ps) {
				return nil, &bank.Reply{Err: fmt.Errorf("no such page")}
			}
			switch ps[k].fault {
			case 3:
				return nil, &bank.Reply{Err: fmt.Errorf("connection lost")}
			case 4:
				return nil, &bank.Reply{Text: ""}
			}
			return ps[k].segments(op, segVersion), nil
		}
		out, err := w.perform(op, a)
		c.Validated()
		// what was asked
		first := a.mark
		for i, m := range w.orders {
			s := m.Find(op.order)
			if s == nil {
				c.Fail("order:"+op.name, "%s sends %s as page request %d", op.name, m.IDs(), i+1)
			}
			if i >= len(ps) {
				c.Fail("more:"+op.name, "%s asks for page %d of %d", op.name, i+1, len(ps))
			}
			exp := first
			if i > 0 {
				exp = ps[i-1].mark
			}
			if got := s.Group(markAt[s.ID]); got != exp {
				c.Fail("mark:"+op.name, "page request %d of %s carries the mark %q, the bank gave %q", i+1, op.name, got, exp)
			}
			if without(s) != without(w.orders[0].Find(op.order)) {
				c.Fail("differs:"+op.name, "page request %d of %s is %q, the first was %q", i+1, op.name, without(s), without(w.orders[0].Find(op.order)))
			}
		}
		if failed {
			if err == nil {
				c.Fail("fault:"+op.name, "%s has %d pages, the last one fails, and it reports no error but returns %q", op.name, n, out)
			}
			return
		}
		if err != nil {
			c.Fail("error:"+op.name, "%s fails: %v", op.name, err)
		}
		if strings.Join(out, "|") != strings.Join(want, "|") {
			c.Fail("entries:"+op.name, "%s has the entries %q on %d pages and returns %q", op.name, want, n, out)
		}
		if len(w.orders) != n {
			c.Fail("pages:"+op.name, "%s asks for %d of %d pages", op.name, len(w.orders), n)
		}
	})
	long := r.Pick(66, 150)
	r.Explore("long results", fmt.Sprintf("4 operations, each version, both protocols: every number of pages, of response segments and of entries of one segment up to %d and around 99, 127, 255, 512, 999 and 1024, complete or with a last page that fails", long), -1, func(c *engine.Ctx) {
		ops := cops()[:4]
		op := ops[c.Choose(len(ops), "operation")]
		version := engine.Of(c, "protocol", 220, 300)
		segVersion := engine.Of(c, "version", op.impl...)
		counts := []int{}
		for i := 1; i <= long; i++ {
			counts = append(counts, i)
		}
		what := engine.Of(c, "what", "pages", "segments", "entries")
		for _, k := range []int{99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 999, 1000, 1001, 1024, 1025} {
			if k > long && (what != "pages" || segVersion == op.impl[0]) {
				counts = append(counts, k)
			}
		}
		n := engine.Of(c, "count", counts...)
		fails := c.Bool("the last page fails")
		var ps []page
		var want []string
		add := func(segs, each int) {
			p := page{}
			for i := 0; i < segs; i++ {
				var es []int
				for k := 0; k < each; k++ {
					want = append(want, op.entry(len(want)+1))
					es = append(es, len(want))
				}
				p.segs = append(p.segs, es)
			}
			p.mark = fmt.Sprintf("M%d", len(ps)+1)
			ps = append(ps, p)
		}
		switch what {
		case "pages":
			for i := 0; i < n; i++ {
				add(1, 1)
			}
		case "segments":
			add(n, 1)
			add(2, 1)
		case "entries":
			add(1, n)
			add(1, 2)
		}
		ps[len(ps)-1].mark = ""
		if fails {
			ps[len(ps)-1].fault = 1
		}
		c.State(fmt.Sprint(op.name, version, segVersion, what, n, fails))
		w := newClientWorld(c, version, []string{bank.Param(op.param, segVersion)})
		w.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
			exp := ""
			if k > 0 && k <= len(ps) {
				exp = ps[k-1].mark
			}
			s := m.Find(op.order)
			if s == nil || k >= len(ps) || s.Group(markAt[s.ID]) != exp {
				c.Fail("long-request:"+op.name, "%s sends %s as request %d of %d pages, expected the mark %q", op.name, m.IDs(), k+1, len(ps), exp)
			}
			return ps[k].segments(op, segVersion), nil
		}
		out, err := w.perform(op, usualArgs())
		c.Validated()
		if fails {
			if err == nil || len(out) > 0 {
				c.Fail("long-fault:"+op.name, "the last of %d pages of %s fails, it returns %d entries and the error %v", len(ps), op.name, len(out), err)
			}
			return
		}
		if err != nil || len(w.orders) != len(ps) {
			c.Fail("long-pages:"+op.name, "%s with %d %s asks for %d pages: %v", op.name, n, what, len(w.orders), err)
		}
		if strings.Join(out, "|") != strings.Join(want, "|") {
			c.Fail("long-entries:"+op.name, "%s with %d %s has %d entries and returns %d, or others or in another order", op.name, n, what, len(want), len(out))
		}
	})
	r.Explore("two operations", "two operations with 1 or 2 pages each one after the other on one client: neither sees a mark or an entry of the other", -1, func(c *engine.Ctx) {
		ops := cops()[:4]
		i, j := c.Choose(len(ops), "first"), c.Choose(len(ops), "second")
		version := engine.Of(c, "protocol", 220, 300)
		n := []int{1 + c.Choose(2, "pages"), 1 + c.Choose(2, "pages")}
		failed := []bool{c.Bool("first fails"), false}
		params := []string{bank.Param("HISALS", 6), bank.Param("HISALS", 7), bank.Param("HIKAZS", 6), bank.Param("HIKAZS", 7)}
		w := newClientWorld(c, version, params)
		base := 0
		for k, op := range []*cop{ops[i], ops[j]} {
			k := k
			w.orders = nil
			var want []string
			base += 10
			sv := 6
			if strings.HasPrefix(op.name, "Sepa") {
				sv = 7
			}
			op := op
			w.onOrder = func(m *wire.Message, x int) ([]string, *bank.Reply) {
				s := m.Find(op.order)
				if x >= n[k] || s == nil {
					return nil, &bank.Reply{Err: fmt.Errorf("no such page")}
				}
				p := page{segs: [][]int{{base + x}}}
				if x+1 < n[k] {
					p.mark = fmt.Sprintf("M%d", base+x)
				}
				exp := ""
				if x > 0 {
					exp = fmt.Sprintf("M%d", base+x-1)
				}
				if got := s.Group(markAt[s.ID]); got != exp {
					c.Fail("second-mark:"+op.name, "%s after %s sends the mark %q, expected %q", op.name, ops[i].name, got, exp)
				}
				if failed[k] && x+1 == n[k] {
					return nil, &bank.Reply{Err: fmt.Errorf("connection lost")}
				}
				want = append(want, op.entry(base+x))
				return p.segments(op, sv), nil
			}
			out, err := w.perform(op, usualArgs())
			c.Validated()
			c.State(fmt.Sprint(i, j, k, n, version, failed))
			if failed[k] {
				if err == nil {
					c.Fail("second-fault:"+op.name, "%s reports no error although page %d fails", op.name, n[k])
				}
				continue
			}
			if err != nil || strings.Join(out, "|") != strings.Join(want, "|") {
				c.Fail("second:"+op.name, "%s after %s has %q and returns %q, %v", op.name, ops[i].name, want, out, err)
			}
		}
	})
}

func init() {
	engine.Register("C07", c07)
}
