package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// An alt is one content of a data element: what stands on the wire, and the
// value it has.
type alt struct {
	w string
	v any
}

// clock is a time of day.
type clock struct{ h, m, s int }

func dayOf(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC) }

func ks(as ...alt) []alt { return as }

// kinds: the contents a data element of a kind takes. The first is the one it
// has unless the enumeration deviates.
var kinds = map[string][]alt{
	"an":   ks(alt{"Giro", "Giro"}, alt{"a?+b?:c?'d??e?@f", "a+b:c'd?e@f"}, alt{"\xe4\xd6\xdf", "äÖß"}, alt{"0", "0"}, alt{"3", "3"}, alt{"??", "?"}, alt{"x y/z-1.,", "x y/z-1.,"}),
	"txt":  ks(alt{"Hallo", "Hallo"}, alt{"l1\r\nl2", "l1\r\nl2"}, alt{"?'?+", "'+"}, alt{"\xfc", "ü"}),
	"code": ks(alt{"1", "1"}, alt{"2", "2"}, alt{"999", "999"}),
	"num":  ks(alt{"1", 1}, alt{"0", 0}, alt{"300", 300}, alt{"9999", 9999}),
	"dig":  ks(alt{"000000000123", 123}, alt{"000000000000", 0}, alt{"999999999999", 999999999999}),
	"jn":   ks(alt{"J", true}, alt{"N", false}),
	"cur":  ks(alt{"EUR", "EUR"}, alt{"JPY", "JPY"}),
	"date": ks(alt{"20150812", dayOf(2015, 8, 12)}, alt{"20160229", dayOf(2016, 2, 29)}, alt{"19991231", dayOf(1999, 12, 31)}),
	"time": ks(alt{"101112", clock{10, 11, 12}}, alt{"000000", clock{0, 0, 0}}, alt{"235959", clock{23, 59, 59}}),
	"val":  ks(alt{"1000,15", 1000.15}, alt{"0,", 0.0}, alt{"3,5", 3.5}),
	"amt":  ks(alt{"500,:EUR", domain.Amount{Amount: 500, Currency: "EUR"}}, alt{"0,01:USD", domain.Amount{Amount: 0.01, Currency: "USD"}}, alt{"1234567,89:EUR", domain.Amount{Amount: 1234567.89, Currency: "EUR"}}),
	"bin":  ks(alt{"@3@abc", []byte("abc")}, alt{"@5@'+:?@", []byte("'+:?@")}, alt{"@1@\x00", []byte{0}}, alt{"@4@\xe4\xff?'", []byte("\xe4\xff?'")}, alt{"@12@@3@abc'HIRMG", []byte("@3@abc'HIRMG")}),
	"ktv": ks(
		alt{"12345::280:10020030", domain.AccountConnection{AccountID: "12345", CountryCode: 280, BankID: "10020030"}},
		alt{"1:EUR:280:2", domain.AccountConnection{AccountID: "1", SubAccountCharacteristics: "EUR", CountryCode: 280, BankID: "2"}},
		alt{"00?:1:?+:040:x??", domain.AccountConnection{AccountID: "00:1", SubAccountCharacteristics: "+", CountryCode: 40, BankID: "x?"}},
	),
	"kti": ks(
		alt{"DE89370400440532013000:COBADEFFXXX:0532013000::280:37040044", domain.InternationalAccountConnection{IBAN: "DE89370400440532013000", BIC: "COBADEFFXXX", AccountID: "0532013000", BankID: domain.BankID{CountryCode: 280, ID: "37040044"}}},
		alt{"DE1:BIC:2:EUR:280:3", domain.InternationalAccountConnection{IBAN: "DE1", BIC: "BIC", AccountID: "2", SubAccountCharacteristics: "EUR", BankID: domain.BankID{CountryCode: 280, ID: "3"}}},
		alt{"DE1", domain.InternationalAccountConnection{IBAN: "DE1"}},
		alt{"DE1:BIC", domain.InternationalAccountConnection{IBAN: "DE1", BIC: "BIC"}},
		alt{"::7::280:8", domain.InternationalAccountConnection{AccountID: "7", BankID: domain.BankID{CountryCode: 280, ID: "8"}}},
		alt{"DE1::7:?:", domain.InternationalAccountConnection{IBAN: "DE1", AccountID: "7", SubAccountCharacteristics: ":"}},
	),
	"kik": ks(alt{"280:10020030", domain.BankID{CountryCode: 280, ID: "10020030"}}, alt{"040:1?+2", domain.BankID{CountryCode: 40, ID: "1+2"}}),
	"bal": ks(
		alt{"C:1000,15:EUR:20150812", balOf(1000.15, "EUR", dayOf(2015, 8, 12), nil)},
		alt{"D:1000,15:EUR:20150812", balOf(-1000.15, "EUR", dayOf(2015, 8, 12), nil)},
		alt{"D:0,5:USD:20160229:101112", balOf(-0.5, "USD", dayOf(2016, 2, 29), &clock{10, 11, 12})},
		alt{"C:0,:EUR:19991231:235959", balOf(0, "EUR", dayOf(1999, 12, 31), &clock{23, 59, 59})},
		alt{"C:7,:EUR:20150812:", balOf(7, "EUR", dayOf(2015, 8, 12), nil)},
	),
	"limit": ks(
		alt{"T:1000,:EUR", domain.AccountLimit{Kind: "T", Amount: domain.Amount{Amount: 1000, Currency: "EUR"}}},
		alt{"Z:5,5:USD:30", domain.AccountLimit{Kind: "Z", Amount: domain.Amount{Amount: 5.5, Currency: "USD"}, Days: 30}},
		alt{"K", domain.AccountLimit{Kind: "K"}},
	),
	"job":  jobAlts[:5],
	"jobs": jobAlts,
	"ref":  ks(alt{"abc:2", domain.MessageReference{DialogID: "abc", MessageNumber: 2}}, alt{"d?:1?+:9999", domain.MessageReference{DialogID: "d:1+", MessageNumber: 9999}}),
	"ack": ks(
		alt{"0010::Nachricht entgegengenommen", ackOf(10, "", "Nachricht entgegengenommen")},
		alt{"9800:1,2:Abbruch", ackOf(9800, "1,2", "Abbruch")},
		alt{"3040::mehr?+:m?:1", ackOf(3040, "", "mehr+", "m:1")},
		alt{"3920::zug\xe4nge:999:900:901:902:903:904:905:906:907:908", ackOf(3920, "", "zugänge", "999", "900", "901", "902", "903", "904", "905", "906", "907", "908")},
	),
	"keyname": ks(
		alt{"280:10020030:user:S:1:2", domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: "10020030"}, UserID: "user", KeyType: "S", KeyNumber: 1, KeyVersion: 2}},
		alt{"280:1:u?:?+:V:0:0", domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: "1"}, UserID: "u:+", KeyType: "V"}},
	),
	"langs": ks(alt{"1", nums(1)}, alt{"1:2:3", nums(1, 2, 3)}, alt{"3:1", nums(3, 1)}),
	"vers":  ks(alt{"300", nums(300)}, alt{"201:210:220", nums(201, 210, 220)}, alt{"220:300", nums(220, 300)}),
	"svers": ks(alt{"1", nums(1)}, alt{"1:2", nums(1, 2)}, alt{"3:10", nums(3, 10)}),
	"comp":  ks(alt{"0", strs("0")}, alt{"1:2:3", strs("1", "2", "3")}, alt{"999", strs("999")}),
	"pairs": ks(alt{"HKSAL:N:HKUEB:J", pinJobs("HKSAL", false, "HKUEB", true)}, alt{"HKKAZ:J", pinJobs("HKKAZ", true)}, alt{"HKPRO:N:HKKAZ:N:HKTAN:N", pinJobs("HKPRO", false, "HKKAZ", false, "HKTAN", false)}),
	"mt":    ks(alt{"@5@:20:1", []byte(":20:1")}, alt{"@9@\r\n:20:1'+", []byte("\r\n:20:1'+")}),
	"sts":   ks(alt{"1", "1"}, alt{"6", "6"}),
}

var jobAlts = ks(
	alt{"HKSAL:1", []domain.BusinessTransaction{{ID: "HKSAL", NeededSignatures: 1}}},
	alt{"HKUEB:2:T:1000,:EUR", []domain.BusinessTransaction{{ID: "HKUEB", NeededSignatures: 2, Limit: &domain.AccountLimit{Kind: "T", Amount: domain.Amount{Amount: 1000, Currency: "EUR"}}}}},
	alt{"HKUEB:1:Z:7,5:USD:14", []domain.BusinessTransaction{{ID: "HKUEB", NeededSignatures: 1, Limit: &domain.AccountLimit{Kind: "Z", Amount: domain.Amount{Amount: 7.5, Currency: "USD"}, Days: 14}}}},
	alt{"HKKAZ:0", []domain.BusinessTransaction{{ID: "HKKAZ"}}},
	alt{"HKUEB:1:E", []domain.BusinessTransaction{{ID: "HKUEB", NeededSignatures: 1, Limit: &domain.AccountLimit{Kind: "E"}}}},
	alt{"HKTAN:1+HKKAZ:0+HKUEB:2:T:1000,:EUR", []domain.BusinessTransaction{{ID: "HKTAN", NeededSignatures: 1}, {ID: "HKKAZ"}, {ID: "HKUEB", NeededSignatures: 2, Limit: &domain.AccountLimit{Kind: "T", Amount: domain.Amount{Amount: 1000, Currency: "EUR"}}}}},
	alt{"HKA:1+HKB:2", []domain.BusinessTransaction{{ID: "HKA", NeededSignatures: 1}, {ID: "HKB", NeededSignatures: 2}}},
)

func balOf(a float64, cur string, d time.Time, c *clock) domain.Balance {
	b := domain.Balance{Amount: domain.Amount{Amount: a, Currency: cur}, TransmissionDate: d}
	if c != nil {
		t := time.Date(0, 1, 1, c.h, c.m, c.s, 0, time.UTC)
		b.TransmissionTime = &t
	}
	return b
}

func ackOf(code int, ref, text string, params ...string) domain.Acknowledgement {
	return domain.Acknowledgement{Code: code, ReferenceDataElement: ref, Text: text, Params: params}
}

type nested string

func nums(n ...int) any {
	var s []string
	for _, x := range n {
		s = append(s, fmt.Sprint(x))
	}
	return nested("[" + strings.Join(s, ", ") + "]")
}

func strs(n ...string) any {
	var s []string
	for _, x := range n {
		s = append(s, canon(x))
	}
	return nested("[" + strings.Join(s, ", ") + "]")
}

func pinJobs(a ...any) []domain.PinTanBusinessTransaction {
	var r []domain.PinTanBusinessTransaction
	for i := 0; i < len(a); i += 2 {
		r = append(r, domain.PinTanBusinessTransaction{SegmentID: a[i].(string), NeedsTan: a[i+1].(bool)})
	}
	return r
}

// print a value; the empty string and an absent element are the same.
func printed(v any) string {
	switch v := v.(type) {
	case nil:
		return "-"
	case clock:
		return fmt.Sprintf("%02d:%02d:%02d", v.h, v.m, v.s)
	case nested:
		return string(v)
	case string:
		if v == "" {
			return "-"
		}
	case domain.Acknowledgement:
		return canon([]any{v.Code, v.ReferenceDataElement, v.Text, v.Params})
	}
	return canon(v)
}

// A fdef is a data element of a segment.
type fdef struct {
	name string
	kind string
	opt  bool
	sub  []fdef
}

// parse "A=an B=num? C=(D=an E=bin?) F=an"; a name of "-" is a data element
// that is not read.
func parseFields(s string) []fdef {
	var fs []fdef
	for i := 0; i < len(s); {
		if s[i] == ' ' {
			i++
			continue
		}
		j := strings.IndexByte(s[i:], '=') + i
		f := fdef{name: s[i:j]}
		i = j + 1
		if s[i] == '(' {
			depth, k := 0, i
			for ; ; k++ {
				if s[k] == '(' {
					depth++
				}
				if s[k] == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			f.sub = parseFields(s[i+1 : k])
			i = k + 1
		} else {
			k := i
			for k < len(s) && s[k] != ' ' && s[k] != '?' {
				k++
			}
			f.kind = s[i:k]
			i = k
			if kinds[f.kind] == nil {
				panic("kind " + f.kind)
			}
		}
		if i < len(s) && s[i] == '?' {
			f.opt = true
			i++
		}
		fs = append(fs, f)
	}
	return fs
}

// choose contents: the pieces on the wire, and the values by name.
func chooseFields(c *engine.Ctx, fs []fdef, prefix string, vals map[string]any) []string {
	var w []string
	for _, f := range fs {
		if f.sub != nil {
			if f.opt && c.Dev(2, prefix+f.name+" absent") == 1 {
				w = append(w, "")
				vals[prefix+f.name] = nil
				continue
			}
			ws := chooseFields(c, f.sub, prefix+f.name+".", vals)
			if c.Dev(2, prefix+f.name+" closing separators kept") == 0 {
				ws = trimEmpty(ws)
			}
			w = append(w, strings.Join(ws, ":"))
			vals[prefix+f.name] = groupMark{}
			continue
		}
		as := kinds[f.kind]
		n := len(as)
		if e, ok := c.Tag.(*everyContent); ok {
			if e.at--; e.at == -1 {
				a := contentOf(c, f.kind)
				w = append(w, a.w)
				vals[prefix+f.name] = a.v
				continue
			}
		}
		if f.opt {
			n++
		}
		i := c.Dev(n, prefix+f.name)
		if i == len(as) {
			w = append(w, "")
			vals[prefix+f.name] = nil
			continue
		}
		w = append(w, as[i].w)
		vals[prefix+f.name] = as[i].v
	}
	return w
}

type groupMark struct{}

// everyContent marks the data element that takes every content of its kind.
type everyContent struct{ at int }

func leaves(fs []fdef) int {
	n := 0
	for _, f := range fs {
		if f.sub != nil {
			n += leaves(f.sub)
		} else {
			n++
		}
	}
	return n
}

// contentOf chooses any content of a kind.
func contentOf(c *engine.Ctx, kind string) alt {
	text := func() alt {
		if k := c.Choose(191+150, "text"); k >= 191 {
			s := ""
			for n := k - 190; n > 0; n-- {
				s += "Der lange Text 12/34,5-6.7&8;"[n%29 : n%29+1]
			}
			return alt{s, s}
		} else {
			ch := rune(' ' + k)
			if k >= 95 {
				ch = rune(0xa0 + k - 95)
			}
			s := []string{string(ch), "x" + string(ch), string(ch) + "y", "x" + string(ch) + string(ch) + "y"}[c.Choose(4, "place")]
			return alt{wire.Esc(latin1(s)), s}
		}
	}
	number := func(n int) alt {
		k := c.Choose(n+9, "number")
		if k >= n {
			k = []int{2048, 4095, 4096, 5000, 8192, 9000, 9900, 9998, 9999}[k-n]
		}
		return alt{strconv.Itoa(k), k}
	}
	value := func() alt {
		v := int64(c.Choose(1201+9*7, "value"))
		if k := int(v) - 1201; k >= 0 {
			p := int64(10000)
			for i := k / 7; i > 0; i-- {
				p *= 10
			}
			v = p + []int64{-101, -100, -1, 0, 1, 99, 100}[k%7]
		}
		t := fmt.Sprintf("%d,%02d", v/100, v%100)
		if c.Bool("short") {
			t = strings.TrimSuffix(strings.TrimSuffix(t, "0"), "0")
		}
		return alt{t, amtVal(t)}
	}
	currency := func() string {
		k := []byte("EUR")
		k[c.Choose(3, "place")] = byte('A' + c.Choose(26, "letter"))
		return string(k)
	}
	date := func() alt {
		d := dayOf(2015, 1, 1)
		if k := c.Choose(2400+1461, "day"); k < 2400 {
			d = dayOf(1900+k/12, 1+k%12, 1) // every month of two centuries
		} else {
			d = d.AddDate(0, 0, k-2400) // every day of four years
		}
		return alt{d.Format("20060102"), d}
	}
	clockOf := func() alt {
		k := clock{c.Choose(24, "hour"), c.Choose(60, "minute"), 12}
		if k.h == 10 {
			k.s = c.Choose(60, "second")
		}
		return alt{fmt.Sprintf("%02d%02d%02d", k.h, k.m, k.s), k}
	}
	binary := func() alt {
		var b []byte
		if k := c.Choose(256+300, "bytes"); k < 256 {
			b = []byte{'x', byte(k), byte(k)}[c.Choose(3, "place"):]
		} else {
			b = []byte(strings.Repeat(string([]byte{'\'', '@', 'x', 0, ':'}[c.Choose(5, "fill")]), k-255))
		}
		return alt{fmt.Sprintf("@%d@%s", len(b), b), b}
	}
	switch kind {
	case "an", "txt":
		return text()
	case "code":
		k := strconv.Itoa(c.Choose(1000, "code"))
		return alt{k, k}
	case "num":
		return number(1025)
	case "dig":
		k := c.Choose(10000, "number")
		return alt{fmt.Sprintf("%012d", k), k}
	case "cur":
		k := currency()
		return alt{k, k}
	case "date":
		return date()
	case "time":
		return clockOf()
	case "val":
		return value()
	case "amt":
		v := alt{"500,", 500.0}
		cur := "EUR"
		if c.Bool("currency") {
			cur = currency()
		} else {
			v = value()
		}
		return alt{v.w + ":" + cur, domain.Amount{Amount: v.v.(float64), Currency: cur}}
	case "bin", "mt":
		return binary()
	case "ktv":
		p := []alt{{"12345", "12345"}, {"", ""}, {"280", 280}, {"10020030", "10020030"}}
		if k := c.Choose(4, "member"); k == 2 {
			n := c.Choose(1000, "country")
			p[k] = alt{fmt.Sprintf("%03d", n), n}
		} else {
			p[k] = text()
		}
		return alt{p[0].w + ":" + p[1].w + ":" + p[2].w + ":" + p[3].w, domain.AccountConnection{AccountID: p[0].v.(string), SubAccountCharacteristics: p[1].v.(string), CountryCode: p[2].v.(int), BankID: p[3].v.(string)}}
	case "kti":
		p := []alt{{"DE1", "DE1"}, {"BIC", "BIC"}, {"2", "2"}, {"EUR", "EUR"}, {"280", 280}, {"3", "3"}}
		if k := c.Choose(6, "member"); k == 4 {
			n := c.Choose(1000, "country")
			p[k] = alt{fmt.Sprintf("%03d", n), n}
		} else {
			p[k] = text()
		}
		var w []string
		for _, a := range p {
			w = append(w, a.w)
		}
		return alt{strings.Join(w, ":"), domain.InternationalAccountConnection{IBAN: p[0].v.(string), BIC: p[1].v.(string), AccountID: p[2].v.(string), SubAccountCharacteristics: p[3].v.(string), BankID: domain.BankID{CountryCode: p[4].v.(int), ID: p[5].v.(string)}}}
	case "kik":
		if c.Bool("country") {
			n := c.Choose(1000, "country")
			return alt{fmt.Sprintf("%03d:1", n), domain.BankID{CountryCode: n, ID: "1"}}
		}
		t := text()
		return alt{"280:" + t.w, domain.BankID{CountryCode: 280, ID: t.v.(string)}}
	case "bal":
		v, cur, d := alt{"1000,15", 1000.15}, "EUR", alt{"20150812", dayOf(2015, 8, 12)}
		mark := engine.Of(c, "mark", "C", "D")
		var at *clock
		tail := ""
		switch c.Choose(4, "member") {
		case 0:
			v = value()
		case 1:
			cur = currency()
		case 2:
			d = date()
		case 3:
			t := clockOf()
			k := t.v.(clock)
			at, tail = &k, ":"+t.w
		}
		f := v.v.(float64)
		if mark == "D" {
			f = -f
		}
		return alt{mark + ":" + v.w + ":" + cur + ":" + d.w + tail, balOf(f, cur, d.v.(time.Time), at)}
	case "limit":
		l := domain.AccountLimit{Kind: engine.Of(c, "kind", "E", "T", "W", "M", "Z"), Amount: domain.Amount{Amount: 1000, Currency: "EUR"}}
		v := alt{"1000,", 1000.0}
		tail := ""
		if c.Bool("days") {
			l.Days = c.Choose(1000, "days")
			tail = fmt.Sprintf(":%d", l.Days)
		} else {
			v = value()
			l.Amount.Amount = v.v.(float64)
		}
		return alt{l.Kind + ":" + v.w + ":EUR" + tail, l}
	case "ref":
		if c.Bool("number") {
			n := 1 + c.Choose(9999, "number")
			return alt{fmt.Sprintf("abc:%d", n), domain.MessageReference{DialogID: "abc", MessageNumber: n}}
		}
		t := text()
		return alt{t.w + ":2", domain.MessageReference{DialogID: t.v.(string), MessageNumber: 2}}
	case "ack":
		switch c.Choose(4, "member") {
		case 0:
			n := c.Choose(10000, "code")
			return alt{fmt.Sprintf("%04d::Text", n), ackOf(n, "", "Text")}
		case 1:
			t := text()
			return alt{"0010:" + t.w + ":Text", ackOf(10, t.v.(string), "Text")}
		case 2:
			t := text()
			return alt{"0010::" + t.w, ackOf(10, "", t.v.(string))}
		}
		n := c.Choose(10, "parameter")
		w, p := "0010::Text", []string{}
		for i := 0; i < n; i++ {
			w += fmt.Sprintf(":p%d", i)
			p = append(p, fmt.Sprintf("p%d", i))
		}
		t := text()
		return alt{w + ":" + t.w, ackOf(10, "", "Text", append(p, t.v.(string))...)}
	}
	c.Stop()
	panic("unreachable")
}

func trimEmpty(w []string) []string {
	for len(w) > 1 && w[len(w)-1] == "" {
		w = w[:len(w)-1]
	}
	return w
}

// readField prints the content of an element.
func readField(v reflect.Value) string {
	if !v.IsValid() {
		return "no such field"
	}
	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
		return "-"
	}
	switch e := v.Interface().(type) {
	case *element.TimeDataElement:
		t := e.Val()
		return printed(clock{t.Hour(), t.Minute(), t.Second()})
	case *element.BalanceDataElement:
		return printed(e.Balance())
	case *element.SwiftMT940DataElement:
		return printed(e.BinaryDataElement.Val())
	case *element.AllowedBusinessTransactionsDataElement:
		return printed(e.AllowedBusinessTransactions())
	case *element.AcknowledgementDataElement:
		return printed(e.Val())
	case *element.PinTanBusinessTransactionParameters:
		return printed(e.Val())
	}
	if m := v.MethodByName("Val"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
		return printed(m.Call(nil)[0].Interface())
	}
	if g, ok := v.Interface().(interface{ GroupDataElements() []element.DataElement }); ok {
		var s []string
		for _, d := range g.GroupDataElements() {
			s = append(s, readField(reflect.ValueOf(d)))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return "unreadable"
}

func checkFields(c *engine.Ctx, id string, fs []fdef, prefix string, vals map[string]any, v reflect.Value) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	for _, f := range fs {
		if f.name == "-" {
			continue
		}
		fv := v.FieldByName(f.name)
		if !fv.IsValid() {
			c.Fail(id+"-field", "%s has no %s", id, prefix+f.name)
		}
		want, ok := vals[prefix+f.name]
		if _, grp := want.(groupMark); grp {
			if fv.IsNil() {
				c.Fail(id+"-"+f.name, "%s is missing", prefix+f.name)
			}
			checkFields(c, id, f.sub, prefix+f.name+".", vals, fv)
			continue
		}
		if !ok {
			continue
		}
		if g, w := readField(fv), printed(want); g != w {
			c.Fail(id+"-"+f.name, "%s is %s, it should be %s", prefix+f.name, g, w)
		}
	}
}

// get the value of a field; the zero value if it is absent.
func get[T any](m map[string]any, name string) T {
	v, _ := m[name].(T)
	return v
}

func opt[T any](m map[string]any, name string) *T {
	if v, ok := m[name].(T); ok {
		return &v
	}
	return nil
}

func at(d time.Time, c clock) time.Time {
	return time.Date(d.Year(), d.Month(), d.Day(), c.h, c.m, c.s, 0, d.Location())
}

func bookedAt(m map[string]any) *time.Time {
	d := opt[time.Time](m, "BookingDate")
	if c, ok := m["BookingTime"].(clock); ok && d != nil {
		t := at(*d, c)
		return &t
	}
	return d
}

func balanceOf(m map[string]any) domain.AccountBalance {
	b := domain.AccountBalance{
		ProductName:      get[string](m, "AccountProductName"),
		Currency:         get[string](m, "AccountCurrency"),
		BookedBalance:    get[domain.Balance](m, "BookedBalance"),
		EarmarkedBalance: opt[domain.Balance](m, "EarmarkedBalance"),
		CreditLimit:      opt[domain.Amount](m, "CreditLimit"),
		AvailableAmount:  opt[domain.Amount](m, "AvailableAmount"),
		UsedAmount:       opt[domain.Amount](m, "UsedAmount"),
		BookingDate:      bookedAt(m),
		DueDate:          opt[time.Time](m, "DueDate"),
	}
	switch a := m["AccountConnection"].(type) {
	case domain.AccountConnection:
		b.Account = a
	case domain.InternationalAccountConnection:
		b.Account = domain.AccountConnection{AccountID: a.AccountID, SubAccountCharacteristics: a.SubAccountCharacteristics, CountryCode: a.BankID.CountryCode, BankID: a.BankID.ID}
	}
	return b
}

func sepaBalanceOf(m map[string]any) domain.SepaAccountBalance {
	b := balanceOf(m)
	return domain.SepaAccountBalance{
		Account:            get[domain.InternationalAccountConnection](m, "AccountConnection"),
		ProductName:        b.ProductName,
		Currency:           b.Currency,
		BookedBalance:      b.BookedBalance,
		EarmarkedBalance:   b.EarmarkedBalance,
		CreditLimit:        b.CreditLimit,
		AvailableAmount:    b.AvailableAmount,
		UsedAmount:         b.UsedAmount,
		BookingDate:        b.BookingDate,
		DueDate:            b.DueDate,
		SeizableAfterMonth: opt[domain.Amount](m, "SeizableAfterMonth"),
	}
}

// A sdef is a segment a bank sends.
type sdef struct {
	id      string
	version int
	fields  []fdef
	// the values handed to users
	domain func(c *engine.Ctx, m map[string]any, s segment.Segment)
	// wrap is the segment that picks the version
	wrap func() segment.Unmarshaler
}

func sameDomain(c *engine.Ctx, id string, got, want any) {
	if g, w := canon(got), canon(want); g != w {
		c.Fail(id+"-value", "it is handed out as\n%s\nit should be\n%s", g, w)
	}
}

const salCommon = " AccountProductName=an AccountCurrency=cur BookedBalance=bal EarmarkedBalance=bal? CreditLimit=amt? AvailableAmount=amt? UsedAmount=amt? BookingDate=date? BookingTime=time? DueDate=date?"

const hitansProcess = "SecurityFunction=code TanProcess=code TechnicalIDTanProcess=an ZKATanProcess=an? ZKATanProcessVersion=an? TwoStepProcessName=an TwoStepProcessMaxInputValue=num? TwoStepProcessAllowedFormat=code? TwoStepProcessReturnValueText=an TwoStepProcessReturnValueTextMaxLength=num MultiTANAllowed=jn TanTimeAndDialogReference=code JobCancellationAllowed=jn SMSAccountRequired=code IssuerAccountRequired=code ChallengeClassRequired=jn ChallengeStructured=jn InitializationMode=code TanMediumDescriptionRequired=code HHD_UCResponseRequired=jn SupportedActiveTanMedia=num?"

func sal(v int, account, extra string) sdef {
	return sdef{id: "HISAL", version: v, fields: parseFields("AccountConnection=" + account + salCommon + extra),
		wrap: func() segment.Unmarshaler { return &segment.AccountBalanceResponseSegment{} },
		domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
			r := s.(segment.AccountBalanceResponse)
			sameDomain(c, "HISAL", r.AccountBalance(), balanceOf(m))
			if account == "kti" {
				b, err := r.SepaAccountBalance()
				if err != nil {
					c.Fail("HISAL-sepa", "the balance of the international account is refused: %v", err)
				}
				sameDomain(c, "HISAL-sepa", b, sepaBalanceOf(m))
			}
		}}
}

func upd(v int, fields string) sdef {
	return sdef{id: "HIUPD", version: v, fields: parseFields(fields),
		wrap: func() segment.Unmarshaler { return &segment.AccountInformationSegment{} },
		domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
			sameDomain(c, "HIUPD", s.(segment.AccountInformation).Account(), domain.AccountInformation{
				AccountConnection:           get[domain.AccountConnection](m, "AccountConnection"),
				UserID:                      get[string](m, "UserID"),
				Currency:                    get[string](m, "AccountCurrency"),
				Name1:                       get[string](m, "Name1"),
				Name2:                       get[string](m, "Name2"),
				ProductID:                   get[string](m, "AccountProductID"),
				Limit:                       opt[domain.AccountLimit](m, "AccountLimit"),
				AllowedBusinessTransactions: get[[]domain.BusinessTransaction](m, "AllowedBusinessTransactions"),
			})
		}}
}

func upa(v int, fields string) sdef {
	return sdef{id: "HIUPA", version: v, fields: parseFields(fields),
		wrap: func() segment.Unmarshaler { return &segment.CommonUserParameterDataSegment{} },
		domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
			sameDomain(c, "HIUPA", s.(segment.CommonUserParameterData).UserParameterData(), domain.UserParameterData{
				UserID: get[string](m, "UserID"), Version: get[int](m, "UPDVersion"), Usage: get[int](m, "UPDUsage"),
				UserName: get[string](m, "UserName"), Additions: get[string](m, "CommonExtensions")})
		}}
}

func bpa(v int, fields string) sdef {
	return sdef{id: "HIBPA", version: v, fields: parseFields(fields),
		wrap: func() segment.Unmarshaler { return &segment.CommonBankParameterSegment{} },
		domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
			sameDomain(c, "HIBPA", s.(segment.CommonBankParameter).BankParameterData(), domain.BankParameterData{
				Version: get[int](m, "BPDVersion"), BankID: get[domain.BankID](m, "BankID"), BankName: get[string](m, "BankName"),
				MaxTransactionsPerMessage: get[int](m, "BusinessTransactionCount"), MaxMessageSize: get[int](m, "MaxMessageSize"),
				MinTimeout: get[int](m, "MinTimeoutValue"), MaxTimeout: get[int](m, "MaxTimeoutValue")})
		}}
}

func pro(v int) sdef {
	return sdef{id: "HIPRO", version: v, fields: parseFields("ReferencingMessage=ref? ReferencingSegment=num? Date=date Time=time Acknowledgement=ack"),
		wrap: func() segment.Unmarshaler { return &segment.StatusProtocolResponseSegment{} },
		domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
			ack := m["Acknowledgement"].(domain.Acknowledgement)
			got := s.(segment.StatusProtocolResponse).Status()
			want := domain.StatusAcknowledgement{Acknowledgement: ack, TransmittedAt: at(get[time.Time](m, "Date"), get[clock](m, "Time"))}
			// which of the two kinds it is, is told by its references
			want.Type = got.Type
			_, ofSegment := m["ReferencingSegment"].(int)
			ref, ofMessage := m["ReferencingMessage"].(domain.MessageReference)
			if ofMessage {
				want.ReferencingMessage = ref
				want.ReferencingSegmentNumber = get[int](m, "ReferencingSegment")
				if ofSegment {
					want.Type = domain.SegmentAcknowledgement
				}
			} else {
				want.ReferencingSegmentNumber = got.ReferencingSegmentNumber
				want.Type = domain.MessageAcknowledgement
			}
			sameDomain(c, "HIPRO", got, want)
		}}
}

func syn(v int) sdef {
	return sdef{id: "HISYN", version: v, fields: parseFields("ClientSystemIDResponse=an? MessageNumberResponse=num? SignatureIDResponse=num?"),
		wrap: func() segment.Unmarshaler { return &segment.SynchronisationResponseSegment{} },
		domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
			r := s.(segment.SynchronisationResponse)
			sameDomain(c, "HISYN", []any{r.ClientSystemID(), r.LastMessageNumber(), r.SignatureID()},
				[]any{get[string](m, "ClientSystemIDResponse"), get[int](m, "MessageNumberResponse"), get[int](m, "SignatureIDResponse")})
		}}
}

func kaz(v int) sdef {
	return sdef{id: "HIKAZ", version: v, fields: parseFields("BookedTransactions=mt? UnbookedTransactions=bin?"),
		wrap: func() segment.Unmarshaler { return &segment.AccountTransactionResponseSegment{} }}
}

func segDefs() []sdef {
	const accountTail = " Name1=an Name2=an? AccountProductID=an? AccountLimit=limit?"
	const bpaTail = " BankID=kik BankName=an BusinessTransactionCount=num SupportedLanguages=langs SupportedHBCIVersions=vers MaxMessageSize=num?"
	sig := func(code string) string {
		return "SecurityFunction=" + code + " SecurityControlRef=an SecurityApplicationRange=" + code + " SecuritySupplierRole=" + code +
			" SecurityID=(SecurityHolder=an CID=bin? ClientSystemID=an) SecurityRefNumber=num SecurityDate=(DateIdentifier=sts Date=date? Time=time?)" +
			" HashAlgorithm=(Usage=code Algorithm=code AlgorithmParamID=code AlgorithmParamValue=bin?) SignatureAlgorithm=(Usage=code Algorithm=code OperationMode=code) KeyName=keyname"
	}
	enc := func(code string) string {
		return "SecurityFunction=" + code + " SecuritySupplierRole=" + code + " SecurityID=(SecurityHolder=an CID=bin? ClientSystemID=an) SecurityDate=(DateIdentifier=sts Date=date? Time=time?)" +
			" EncryptionAlgorithm=(Usage=code OperationMode=code Algorithm=code Key=bin KeyParamID=code InitializationValueParamID=code InitializationValue=bin?) KeyName=keyname CompressionFunction=" + code
	}
	sigWrap := func() segment.Unmarshaler { return &segment.SignatureHeaderSegment{} }
	encWrap := func() segment.Unmarshaler { return &segment.EncryptionHeaderSegment{} }
	return []sdef{
		sal(5, "ktv", ""), sal(6, "ktv", ""), sal(7, "kti", ""), sal(8, "kti", " SeizableAfterMonth=amt?"),
		upd(4, "AccountConnection=ktv UserID=an AccountCurrency=cur"+accountTail+" AllowedBusinessTransactions=jobs?"),
		upd(5, "AccountConnection=ktv? UserID=an AccountType=num? AccountCurrency=cur?"+accountTail+" AllowedBusinessTransactions=jobs?"),
		upd(6, "AccountConnection=ktv? IBAN=an? UserID=an AccountType=num? AccountCurrency=cur?"+accountTail+" AllowedBusinessTransactions=job? AccountExtensions=an?"),
		upd(7, "AccountConnection=ktv? IBAN=an? UserID=an AccountType=num? AccountCurrency=cur?"+accountTail+" AllowedBusinessTransactions=job? AccountExtensions=an?"),
		upa(2, "UserID=an UPDVersion=num UPDUsage=num"),
		upa(3, "UserID=an UPDVersion=num UPDUsage=num UserName=an? CommonExtensions=an?"),
		upa(4, "UserID=an UPDVersion=num UPDUsage=num UserName=an? CommonExtensions=an?"),
		bpa(2, "BPDVersion=num"+bpaTail), bpa(3, "BPDVersion=num"+bpaTail+" MinTimeoutValue=num? MaxTimeoutValue=num?"),
		pro(3), pro(4), syn(3), syn(4), kaz(5), kaz(6), kaz(7),
		{id: "HIKIF", version: 1, fields: parseFields("AccountConnection=ktv AccountKind=num Name1=an Name2=an? AccountProductID=an? AccountCurrency=cur OpeningDate=date? DebitInterest=val? CreditInterest=val? OverDebitInterest=val? CreditLimit=amt? ReferenceAccount=ktv? AccountStatementShippingType=num? AccountStatementShippingRotation=num? AdditionalInformation=txt?")},
		{id: "HIKIM", version: 2, fields: parseFields("Subject=an Body=txt")},
		{id: "HIKPV", version: 1, fields: parseFields("SupportedCompressionMethods=comp")},
		{id: "HISHV", version: 2, fields: parseFields("MixAllowed=jn SupportedMethods=(MethodCode=an Versions=svers)")},
		{id: "HIKOM", version: 3, fields: parseFields("BankID=kik StandardLanguage=num CommunicationParams=(Protocol=num Address=an AddressAddition=an? FilterFunction=an? FilterFunctionVersion=num?)")},
		{id: "HIPINS", version: 1, fields: parseFields("MaxJobs=num MinSignatures=num -=num PinTanSpecificParams=(PinMinLength=num? PinMaxLength=num? TanMaxLength=num? UserIDText=an? CustomerIDText=an? JobSpecificPinTanInformation=pairs)"),
			wrap: func() segment.Unmarshaler { return &segment.PinTanBankParameterSegment{} },
			domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
				sameDomain(c, "HIPINS", s.(segment.PinTanBankParameter).PinTanBusinessTransactions(), m["PinTanSpecificParams.JobSpecificPinTanInformation"])
			}},
		{id: "DIPINS", version: 1, fields: parseFields("MaxJobs=num MinSignatures=num -=pairs"),
			domain: func(c *engine.Ctx, m map[string]any, s segment.Segment) {
				sameDomain(c, "DIPINS", s.(segment.PinTanBusinessTransactionParams).PinTanBusinessTransactions(), m["-"])
			}},
		{id: "HITAN", version: 6, fields: parseFields("TANProcess=code JobHash=bin? JobReference=an? Challenge=an? ChallengeHHD_UC=bin? ChallengeExpiryDate=(Date=date Time=time)? TANMediumDescription=an?"),
			wrap: func() segment.Unmarshaler { return &segment.TanResponseSegment{} }},
		{id: "HNHBK", version: 3, fields: parseFields("Size=dig HBCIVersion=num DialogID=an Number=num Ref=ref?")},
		{id: "HNHBS", version: 1, fields: parseFields("Number=num")},
		{id: "HNVSD", version: 1, fields: parseFields("Data=bin")},
		{id: "HNSHK", version: 3, fields: parseFields(sig("an")), wrap: sigWrap},
		{id: "HNSHK", version: 4, fields: parseFields("SecurityProfile=(SecurityMethod=an SecurityMethodVersion=num) " + sig("code")), wrap: sigWrap},
		{id: "HNVSK", version: 2, fields: parseFields(enc("an")), wrap: encWrap},
		{id: "HNVSK", version: 3, fields: parseFields("SecurityProfile=(SecurityMethod=an SecurityMethodVersion=num) " + enc("code")), wrap: encWrap},
		{id: "HNSHA", version: 1, fields: parseFields("SecurityControlRef=an Signature=bin? PinTan=(PIN=an TAN=an)?"), wrap: func() segment.Unmarshaler { return &segment.SignatureEndSegment{} }},
		{id: "HNSHA", version: 2, fields: parseFields("SecurityControlRef=an Signature=bin? CustomSignature=(PIN=an TAN=an?)?"), wrap: func() segment.Unmarshaler { return &segment.SignatureEndSegment{} }},
	}
}

// decodeSegment reads a message that has the segment between two others, and
// checks the segment is read the way it stands in the message.
func decodeSegment(c *engine.Ctx, id string, version int, ref bool, body string) segment.Segment {
	head := fmt.Sprintf("%s:3:%d", id, version)
	if ref {
		head += ":4"
	}
	raw := "HNHBK:1:3+000000000999+300+d1+2+d1:2'" + head + "+" + body + "'XXUNK:5:1+a:b+@1@''HNHBS:6:1+2'"
	if id == "HNHBK" {
		raw = head + "+" + body + "'HNHBS:6:1+2'"
	}
	if id == "HNHBS" {
		raw = "HNHBK:1:3+000000000999+300+d1+2+d1:2'" + head + "+" + body + "'"
	}
	u := message.NewUnmarshaler([]byte(raw))
	var err error
	if p := engine.Guard(func() { err = u.Unmarshal() }); p != "" {
		c.Fail(id+"-panic", "%q: %s", raw, p)
	}
	if err != nil {
		c.Fail(id+"-refused", "%q: %v", raw, err)
	}
	c.Between()
	segs := u.SegmentsByID(id)
	if len(segs) != 1 {
		c.Fail(id+"-count", "%q: %d segments %s", raw, len(segs), id)
	}
	h := segs[0].Header()
	wantRef := -1
	if ref {
		wantRef = 4
	}
	if h.ID.Val() != id || h.Position.Val() != 3 || h.Version.Val() != version || h.ReferencingSegment() != wantRef {
		c.Fail(id+"-header", "%q: header %q", raw, h.String())
	}
	c.Logf("%q", raw)
	return segs[0]
}

func init() {
	engine.Register("C12", func(r *engine.Runner) { decoding(r, true) })
}

// decoding explores the decoders of the segments a bank sends.
func decoding(r *engine.Runner, everything bool) {
	{
		defs := segDefs()
		devs := r.Pick(2, 3)
		bound := fmt.Sprintf("every segment the library reads, in every combination of contents in which at most %d data elements deviate from the usual one, with and without reference and with closing separators kept or left out; read out of a message and, where there is one, by the segment that picks the version", devs)
		one := func(c *engine.Ctx) {
			d := defs[c.Choose(len(defs), "segment")]
			if e, ok := c.Tag.(*everyContent); ok {
				e.at = c.Choose(leaves(d.fields), "element")
			}
			c.Logf("%s:%d", d.id, d.version)
			vals := map[string]any{}
			w := chooseFields(c, d.fields, "", vals)
			if c.Dev(2, "closing separators kept") == 0 {
				w = trimEmpty(w)
			}
			body := strings.Join(w, "+")
			c.State(d.id + fmt.Sprint(d.version) + body)
			ref := c.Bool("with reference")
			s := decodeSegment(c, d.id, d.version, ref, body)
			key := fmt.Sprintf("%s%d", d.id, d.version)
			c.Validated()
			if p := engine.Guard(func() {
				checkFields(c, key, d.fields, "", vals, reflect.ValueOf(s))
				if d.domain != nil {
					d.domain(c, vals, s)
				}
			}); p != "" {
				c.Fail(key+"-panic", "%q: %s", body, p)
			}
			if d.wrap == nil {
				return
			}
			head := fmt.Sprintf("%s:3:%d", d.id, d.version)
			u := d.wrap()
			var err error
			if p := engine.Guard(func() { err = u.UnmarshalHBCI([]byte(head + "+" + body + "'")) }); p != "" || err != nil {
				c.Fail(key+"-dispatch", "%q: %v %s", body, err, p)
			}
			c.Between()
			if ws, ok := u.(segment.Segment); ok {
				if h := ws.Header(); h.Version.Val() != d.version {
					c.Fail(key+"-dispatch", "version %d is read as %d", d.version, h.Version.Val())
				}
				if d.domain != nil {
					if p := engine.Guard(func() { d.domain(c, vals, ws) }); p != "" {
						c.Fail(key+"-dispatch", "%q: %s", body, p)
					}
				}
			} else {
				c.Fail(key+"-dispatch", "%T is no segment", u)
			}
		}
		r.ExploreBetween("segments", bound, devs, one)
		if everything {
			r.Explore("every content", "every segment the library reads, with each data element in turn taking every content of its kind: texts with every character at every place and of every length up to 150, numbers and codes up to 1024, values up to 12 and around the powers of ten, every day of four years and month of two centuries, every minute of a day, every byte in binary data and lengths up to 300, every country code, every member of a group in the same way", 0, func(c *engine.Ctx) {
				c.Tag = &everyContent{}
				one(c)
			})
		}
		if everything {
			r.ExploreBetween("several business transactions", "accounts of the newer versions with two or three permitted business transactions", -1, func(c *engine.Ctx) {
				v := engine.Of(c, "version", 6, 7)
				a := jobAlts[5+c.Choose(2, "transactions")]
				s := decodeSegment(c, "HIUPD", v, true, "1::280:2+DE1+u+1+EUR+n++++"+a.w)
				want := a.v.([]domain.BusinessTransaction)
				got := s.(segment.AccountInformation).Account().AllowedBusinessTransactions
				c.State(a.w)
				c.Validated()
				if canon(got) == canon(want) {
					return
				}
				if len(got) == 1 && canon(got[0]) == canon(want[0]) {
					c.Fail("HIUPD-first-transaction-only", "%q: of %d business transactions only the first is handed out", a.w, len(want))
				}
				c.Fail("HIUPD-transactions", "%q is %s, it should be %s", a.w, canon(got), canon(want))
			})
		}
		procedures := func(c *engine.Ctx) {
			fs := parseFields(hitansProcess)
			vals := map[string]any{}
			w := chooseFields(c, parseFields("MaxJobs=num MinSignatures=num SecurityClass=code"), "", vals)
			g := chooseFields(c, parseFields("OneStepProcessAllowed=jn MoreThanOneObligatoryTanJobAllowed=jn JobHashMethod=code"), "p.", vals)
			n := 0
			if w, ok := c.Tag.(*crowd); ok {
				n = w.n
			} else {
				n = 1 + c.Choose(3, "procedures")
			}
			var ps []map[string]any
			for i := 0; i < n; i++ {
				m := map[string]any{}
				g = append(g, chooseFields(c, fs, "", m)...)
				ps = append(ps, m)
			}
			s := decodeSegment(c, "HITANS", 6, true, strings.Join(w, "+")+"+"+strings.Join(g, ":"))
			c.State(strings.Join(w, "+") + strings.Join(g, ":"))
			c.Validated()
			if p := engine.Guard(func() {
				checkFields(c, "HITANS", parseFields("MaxJobs=num MinSignatures=num SecurityClass=code"), "", vals, reflect.ValueOf(s))
				p := s.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter
				checkFields(c, "HITANS", parseFields("OneStepProcessAllowed=jn MoreThanOneObligatoryTanJobAllowed=jn JobHashMethod=code"), "p.", vals, reflect.ValueOf(p))
				es := p.ProcessParameters.GroupDataElements()
				if len(es) != n {
					c.Fail("HITANS-procedures", "%d procedures, there are %d", len(es), n)
				}
				for i, e := range es {
					checkFields(c, "HITANS", fs, "", ps[i], reflect.ValueOf(e))
				}
			}); p != "" {
				c.Fail("HITANS-panic", "%s", p)
			}
		}
		r.ExploreBetween("TAN procedures", fmt.Sprintf("HITANS with one to three procedures, every combination in which at most %d members deviate", devs), devs, procedures)
		r.Explore("many TAN procedures", "HITANS with every number of procedures up to 98, no member deviates", 0, func(c *engine.Ctx) {
			c.Tag = &crowd{n: 1 + c.Choose(98, "procedures")}
			procedures(c)
		})

		r.Explore("TAN needed", "whether a job needs a TAN, for every list of up to four jobs out of three", 0, func(c *engine.Ctx) {
			ids := []string{"HKSAL", "HKSALX", "HKUEB"}
			var l domain.PinTanBusinessTransactions
			for i := 0; i < 4; i++ {
				k := c.Choose(1+2*len(ids), "job")
				if k == 0 {
					break
				}
				l = append(l, domain.PinTanBusinessTransaction{SegmentID: ids[(k-1)/2], NeedsTan: k%2 == 0})
			}
			c.State(fmt.Sprint(l))
			c.Validated()
			for _, id := range append(ids, "", "HKSA", "hksal") {
				var needed, known bool
				for _, t := range l {
					if t.SegmentID == id && !known {
						needed, known = t.NeedsTan, true
					}
				}
				if n, k := l.NeedsTan(id); n != needed || k != known {
					c.Fail("tan-needed", "in %v, %q needs a TAN: %v, known: %v", l, id, n, k)
				}
			}
		})
		r.ExploreBetween("acknowledgements", "HIRMG and HIRMS with one to three acknowledgements of every content", -1, func(c *engine.Ctx) {
			id := engine.Of(c, "segment", "HIRMG", "HIRMS")
			ref := c.Bool("with reference")
			n := 1 + c.Choose(3, "acknowledgements")
			var w []string
			var want []domain.Acknowledgement
			for i := 0; i < n; i++ {
				a := kinds["ack"][c.Choose(len(kinds["ack"]), "acknowledgement")]
				w = append(w, a.w)
				want = append(want, a.v.(domain.Acknowledgement))
			}
			s := decodeSegment(c, id, 2, ref, strings.Join(w, "+"))
			c.State(id + strings.Join(w, "+"))
			c.Validated()
			got := s.(interface {
				Acknowledgements() []domain.Acknowledgement
			}).Acknowledgements()
			if len(got) != n {
				c.Fail(id+"-number", "%d acknowledgements, there are %d", len(got), n)
			}
			for i, a := range got {
				if printed(a) != printed(want[i]) {
					c.Fail(id+"-value", "%s, it should be %s", printed(a), printed(want[i]))
				}
				if ref && a.ReferencingSegmentNumber != 4 {
					c.Fail(id+"-reference", "it refers to segment %d, it should be 4", a.ReferencingSegmentNumber)
				}
				typ := map[string]string{"HIRMG": domain.MessageAcknowledgement, "HIRMS": domain.SegmentAcknowledgement}[id]
				if a.Type != typ {
					c.Fail(id+"-type", "it is a %s", a.Type)
				}
			}
		})
	}
}
