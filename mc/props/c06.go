package props

import (
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

func highest(impl []int, announced []int) int {
	best := 0
	for _, v := range announced {
		for _, i := range impl {
			if v == i && v > best {
				best = v
			}
		}
	}
	return best
}

// announce chooses a list of versions, without repetition.
func announce(c *engine.Ctx, from []int, max int) []int {
	var list []int
	left := append([]int(nil), from...)
	for len(list) < max {
		k := c.Choose(len(left)+1, "announced version")
		if k == 0 {
			break
		}
		list = append(list, left[k-1])
		left = append(left[:k-1:k-1], left[k:]...)
	}
	return list
}

func ints(l []int) string { return strings.Trim(fmt.Sprint(l), "[]") }

// C06: orders are sent in the highest version both sides know.
func c06(r *engine.Runner) {
	max := r.Pick(3, 4)
	r.Explore("announced versions", fmt.Sprintf("each of 5 operations, HBCI 2.2 and FinTS 3.0, every ordered list of up to %d announced versions, alone or among announcements of other orders, announced at the beginning of the first operation and used again by the second", max), -1, func(c *engine.Ctx) {
		ops := cops()
		op := ops[c.Choose(len(ops), "operation")]
		version := engine.Of(c, "protocol", 220, 300)
		list := announce(c, op.all, max)
		noise := c.Choose(3, "others")
		var params []string
		for _, o := range []string{"HISALS", "HIKAZS", "HIPROS"} {
			if noise == 1 && o != op.param {
				params = append(params, bank.Param(o, 6), bank.Param(o, 7), bank.Param(o, 3))
			}
		}
		for i, v := range list {
			params = append(params, bank.Param(op.param, v))
			if noise == 2 && i == 0 {
				params = append(params, bank.Param("HIXYZS", 9), bank.Param("HIPAES", 1), bank.Param("HI"+op.param[2:5]+"X", 6), bank.TANS("910"))
			}
		}
		c.State(fmt.Sprint(op.name, version, list, noise))
		w := newClientWorld(c, version, params)
		want := highest(op.impl, list)
		w.onOrder = func(m *wire.Message, n int) ([]string, *bank.Reply) {
			return append([]string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}, op.render(4, want, []int{7})...), nil
		}
		for i := 1; i <= 2; i++ {
			out, err := w.perform(op, usualArgs())
			c.Validated()
			if want == 0 {
				if err == nil {
					c.Fail("none:"+op.name, "the bank announces %v for %s, the library implements %v, and %s reports no error", list, op.order, op.impl, op.name)
				}
				if len(w.orders) > 0 {
					c.Fail("sent:"+op.name, "the bank announces %v for %s, the library implements %v, and %s is sent", list, op.order, op.impl, w.orders[0].IDs())
				}
				continue
			}
			if err != nil {
				c.Fail("refused:"+op.name, "the bank announces %v for %s, the library implements %v, and %s fails: %v", list, op.order, op.impl, op.name, err)
			}
			if len(w.orders) != i {
				c.Fail("orders:"+op.name, "%s sends %d orders", op.name, len(w.orders))
			}
			if s := w.orders[i-1].Find(op.order); s == nil || s.Ver != want {
				c.Fail("version:"+op.name, "the bank announces %v for %s, the library implements %v, and it sends %s", list, op.order, op.impl, w.orders[i-1].IDs())
			}
			if strings.Join(out, "|") != op.entry(7) {
				c.Fail("result:"+op.name, "%s returns %q", op.name, out)
			}
		}
	})
	lists := r.Pick(2, 3)
	r.Explore("changed announcements", fmt.Sprintf("each of 5 operations, HBCI 2.2 and FinTS 3.0, every pair of lists of up to %d announced versions out of those implemented and one that is not: the second replaces the first when the dialog of another operation, or of the same, is opened", lists), -1, func(c *engine.Ctx) {
		ops := cops()
		op := ops[c.Choose(len(ops), "operation")]
		version := engine.Of(c, "protocol", 220, 300)
		from := append(append([]int{}, op.impl...), op.impl[len(op.impl)-1]+1)
		first, second := announce(c, from, lists), announce(c, from, lists)
		same := c.Bool("same operation")
		newer := c.Bool("newer")
		c.State(fmt.Sprint(op.name, version, first, second, same))
		render := func(list []int) []string {
			var out []string
			for _, v := range list {
				out = append(out, bank.Param(op.param, v))
			}
			return out
		}
		w := newClientWorld(c, version, render(first))
		w.bpd = 50
		want := highest(op.impl, first)
		w.onOrder = func(m *wire.Message, n int) ([]string, *bank.Reply) {
			return append([]string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}, op.render(4, want, []int{7})...), nil
		}
		if _, err := w.cl.Accounts(); err != nil {
			c.Fail("accounts", "%v", err)
		}
		w.params = render(second)
		w.bpd = 49
		if newer {
			w.bpd = 51
		}
		if same && want > 0 {
			if _, err := w.perform(op, usualArgs()); err != nil {
				c.Fail("refused:"+op.name, "the bank announces %v for %s, the library implements %v, and %s fails: %v", first, op.order, op.impl, op.name, err)
			}
		} else if _, err := w.cl.Accounts(); err != nil {
			c.Fail("accounts", "%v", err)
		}
		w.orders = nil
		want = highest(op.impl, second)
		_, err := w.perform(op, usualArgs())
		c.Validated()
		switch {
		case want == 0 && (err == nil || len(w.orders) > 0):
			c.Fail("none:"+op.name, "the bank announced %v for %s, then %v, the library implements %v, and %s sends %d orders (%v)", first, op.order, second, op.impl, op.name, len(w.orders), err)
		case want == 0:
		case err != nil || len(w.orders) != 1:
			c.Fail("refused:"+op.name, "the bank announced %v for %s, then %v, the library implements %v, and %s fails: %v", first, op.order, second, op.impl, op.name, err)
		default:
			if s := w.orders[0].Find(op.order); s == nil || s.Ver != want {
				c.Fail("version:"+op.name, "the bank announced %v for %s, then %v, the library implements %v, and it sends %s", first, op.order, second, op.impl, w.orders[0].IDs())
			}
		}
	})
	crowded := r.Pick(60, 400)
	r.Explore("many announcements", fmt.Sprintf("each of 5 operations, both protocols, each implemented version: its announcement between every number of others up to %d, with and without announcements of versions from 10 to 999 and of older ones before and after it", crowded), 0, func(c *engine.Ctx) {
		ops := cops()
		op := ops[c.Choose(len(ops), "operation")]
		version := engine.Of(c, "protocol", 220, 300)
		want := engine.Of(c, "version", op.impl...)
		before, after := 0, c.Choose(crowded+1, "others")
		switch c.Choose(3, "place") {
		case 1:
			before, after = after, 0
		case 2:
			before = after
		}
		around := c.Choose(4, "other versions")
		var params []string
		other := func(n int) {
			for i := 0; i < n; i++ {
				params = append(params, bank.Param(fmt.Sprintf("HI%c%c%cS", 'Q'+i/676%8, 'A'+i/26%26, 'A'+i%26), 1+i%9))
			}
		}
		foreign := func(on bool) {
			if on {
				for _, v := range []int{1, 2, 10, 11, 16, 17, 50, 60, 70, 80, 100, 256, 600, 999} {
					params = append(params, bank.Param(op.param, v))
				}
				for v := op.impl[0]; v < want; v++ {
					params = append(params, bank.Param(op.param, v))
				}
			}
		}
		other(before)
		foreign(around&1 == 1)
		params = append(params, bank.Param(op.param, want))
		foreign(around&2 == 2)
		other(after)
		c.State(fmt.Sprint(op.name, version, want, before, after, around))
		w := newClientWorld(c, version, params)
		w.onOrder = func(m *wire.Message, n int) ([]string, *bank.Reply) {
			return append([]string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}, op.render(4, want, []int{7})...), nil
		}
		out, err := w.perform(op, usualArgs())
		c.Validated()
		if err != nil || len(w.orders) != 1 || strings.Join(out, "|") != op.entry(7) {
			c.Fail("many-refused:"+op.name, "%s version %d announced among %d others: %d orders, %q, %v", op.name, want, before+after, len(w.orders), out, err)
		}
		if s := w.orders[0].Find(op.order); s == nil || s.Ver != want {
			c.Fail("many-version:"+op.name, "%s version %d announced among %d others: %s is sent", op.name, want, before+after, w.orders[0].IDs())
		}
	})
	max = r.Pick(4, 6)
	r.Explore("request builder", fmt.Sprintf("every sequence of up to %d announcements of three orders in versions 2 to 9: the request built for each operation, built twice", max), -1, func(c *engine.Ctx) {
		ids := []string{"HISALS", "HIKAZS", "HIPROS"}
		var list []segment.VersionedSegment
		versions := map[string][]int{}
		for len(list) < max {
			k := c.Choose(1+len(ids)*8, "announcement")
			if k == 0 {
				break
			}
			s := segment.VersionedSegment{ID: ids[(k-1)%3], Version: 2 + (k-1)/3}
			list = append(list, s)
			versions[s.ID] = append(versions[s.ID], s.Version)
		}
		before := fmt.Sprint(list)
		c.State(before)
		b := segment.NewBuilder(list)
		a := usualArgs()
		for pass := 0; pass < 2; pass++ {
			for _, op := range cops() {
				var req segment.ClientSegment
				var err error
				if p := engine.Guard(func() {
					switch op.name {
					case "AccountBalances":
						req, err = b.AccountBalanceRequest(a.acct, false)
					case "SepaAccountBalances":
						req, err = b.SepaAccountBalanceRequest(a.iacct, false)
					case "AccountTransactions":
						req, err = b.AccountTransactionRequest(a.acct, false)
					case "SepaAccountTransactions":
						req, err = b.SepaAccountTransactionRequest(a.iacct, false)
					case "Status":
						req, err = b.StatusProtocolRequest(a.from, a.to, 1, "")
					}
				}); p != "" {
					c.Fail("builder-panic", "%v: %s: %s", list, op.name, p)
				}
				c.Validated()
				want := highest(op.impl, versions[op.param])
				switch {
				case want == 0 && err == nil:
					c.Fail("builder-none:"+op.name, "%v: %s is built although none of the versions %v is announced", list, op.name, op.impl)
				case want != 0 && err != nil:
					c.Fail("builder-refused:"+op.name, "%v: %s: %v", list, op.name, err)
				case want != 0 && (req.Header().Version.Val() != want || req.Header().ID.Val() != op.order):
					c.Fail("builder-version:"+op.name, "%v: %s builds %s, expected version %d", list, op.name, req.Header(), want)
				}
			}
		}
		if fmt.Sprint(list) != before {
			c.Fail("builder-order", "the announcements %s are changed to %v", before, list)
		}
	})
	r.Explore("version pickers", fmt.Sprintf("every list of up to %d versions from 0 to 9 given to each of the functions that pick a version: the highest one implemented is picked, and the list is left as it is", max), -1, func(c *engine.Ctx) {
		var list []int
		for len(list) < max {
			k := c.Choose(11, "version")
			if k == 0 {
				break
			}
			list = append(list, k-1)
		}
		a := usualArgs()
		pick := []struct {
			name string
			impl []int
			f    func(l []int) (segment.ClientSegment, error)
		}{
			{"AccountBalanceRequestBuilder", []int{5, 6}, func(l []int) (segment.ClientSegment, error) {
				f, err := segment.AccountBalanceRequestBuilder(l)
				if err != nil {
					return nil, err
				}
				return f(a.acct, true), nil
			}},
			{"SepaAccountBalanceRequestBuilder", []int{7, 8}, func(l []int) (segment.ClientSegment, error) {
				f, err := segment.SepaAccountBalanceRequestBuilder(l)
				if err != nil {
					return nil, err
				}
				return f(a.iacct, true), nil
			}},
			{"AccountTransactionRequestBuilder", []int{5, 6}, func(l []int) (segment.ClientSegment, error) {
				f, err := segment.AccountTransactionRequestBuilder(l)
				if err != nil {
					return nil, err
				}
				return f(a.acct, true), nil
			}},
			{"SepaAccountTransactionRequestBuilder", []int{7}, func(l []int) (segment.ClientSegment, error) {
				f, err := segment.SepaAccountTransactionRequestBuilder(l)
				if err != nil {
					return nil, err
				}
				return f(a.iacct, true), nil
			}},
			{"StatusProtocolRequestBuilder", []int{3, 4}, func(l []int) (segment.ClientSegment, error) {
				f, err := segment.StatusProtocolRequestBuilder(l)
				if err != nil {
					return nil, err
				}
				return f(a.from, a.to, 1, ""), nil
			}},
			{"TanProcess4RequestBuilder", []int{1, 6}, func(l []int) (segment.ClientSegment, error) {
				f, err := segment.TanProcess4RequestBuilder(l)
				if err != nil {
					return nil, err
				}
				return f("HKIDN"), nil
			}},
		}
		before := fmt.Sprint(list)
		c.State(before)
		for _, p := range pick {
			l := append([]int(nil), list...)
			var req segment.ClientSegment
			var err error
			if g := engine.Guard(func() { req, err = p.f(l) }); g != "" {
				c.Fail("picker-panic:"+p.name, "%v: %s", list, g)
			}
			c.Validated()
			want := highest(p.impl, list)
			switch {
			case want == 0 && err == nil:
				c.Fail("picker-none:"+p.name, "%v: %s picks a version although %v are implemented", list, p.name, p.impl)
			case want != 0 && err != nil:
				c.Fail("picker-refused:"+p.name, "%v: %s: %v", list, p.name, err)
			case want != 0 && req.Header().Version.Val() != want:
				c.Fail("picker-version:"+p.name, "%v: %s picks %s, expected version %d", list, p.name, req.Header(), want)
			}
			if fmt.Sprint(l) != before {
				c.Fail("picker-order:"+p.name, "%s changes the list %s of its caller to %v", p.name, before, l)
			}
		}
	})
}

func init() {
	engine.Register("C06", c06)
}
