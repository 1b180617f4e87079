package props

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// latin1 is the reference for the character set.
func latin1(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func utf8Of(s string) string {
	var b []rune
	for i := 0; i < len(s); i++ {
		b = append(b, rune(s[i]))
	}
	return string(b)
}

// encoded marshals an element and checks that it carries exactly the given
// group values on the wire, between two neighbours that must stay intact.
func encoded(c *engine.Ctx, kind string, de element.DataElement, want ...string) []byte {
	b, err := de.MarshalHBCI()
	if err != nil {
		c.Fail("marshal-error:"+kind, "marshalling %s: %v", kind, err)
	}
	c.Between()
	if c.Verbose() {
		c.Logf("%s %q -> %q", kind, want, b)
	}
	seg := "XXXXX:1:1+vorher+" + string(b) + "+nachher'"
	ss, err := wire.Parse(seg)
	if err != nil {
		c.Fail("malformed:"+kind, "%s with values %q is encoded as %q, which is malformed: %v", kind, want, b, err)
	}
	if len(ss) != 1 || len(ss[0].DE) != 4 || ss[0].E(1, 0) != "vorher" || ss[0].E(3, 0) != "nachher" {
		c.Fail("leaks:"+kind, "%s with values %q is encoded as %q, which changes its neighbours", kind, want, b)
	}
	var got []string
	for _, v := range ss[0].DE[2] {
		got = append(got, utf8Of(v.S))
	}
	for len(got) > 0 && got[len(got)-1] == "" {
		got = got[:len(got)-1]
	}
	for len(want) > 0 && want[len(want)-1] == "" {
		want = want[:len(want)-1]
	}
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		c.Fail("value-on-wire:"+kind, "%s with values %q is encoded as %q, which reads %q", kind, want, b, got)
	}
	// the implementation finds the same element in the segment
	es, err := segment.ExtractElements([]byte(seg))
	if err != nil || len(es) != 4 || string(es[2]) != string(b) {
		c.Fail("extract:"+kind, "element %q of segment %q is extracted as %q (%v)", b, seg, es, err)
	}
	return b
}

func decode(c *engine.Ctx, kind string, de element.DataElement, b []byte) {
	if p := engine.Guard(func() {
		if err := de.UnmarshalHBCI(b); err != nil {
			c.Fail("unmarshal-error:"+kind, "decoding %s from %q: %v", kind, b, err)
		}
	}); p != "" {
		c.Fail("panic:"+kind, "decoding %s from %q panics: %s", kind, b, p)
	}
	c.Between()
}

func same(c *engine.Ctx, kind string, got, want any, b []byte) {
	if !reflect.DeepEqual(got, want) {
		c.Fail("roundtrip:"+kind, "%s %#v is encoded as %q and decoded as %#v", kind, want, b, got)
	}
	c.Validated()
}

func textKinds(c *engine.Ctx, s string) {
	kind := engine.Of(c, "kind", "alphanumeric", "text", "identification", "code", "params")
	var b []byte
	switch kind {
	case "alphanumeric":
		b = encoded(c, kind, element.NewAlphaNumeric(s, 99), s)
		d := &element.AlphaNumericDataElement{}
		decode(c, kind, d, b)
		same(c, kind, d.Val(), s, b)
	case "text":
		b = encoded(c, kind, element.NewText(s, 99), s)
		d := &element.TextDataElement{}
		decode(c, kind, d, b)
		same(c, kind, d.Val(), s, b)
	case "identification":
		b = encoded(c, kind, element.NewIdentification(s), s)
		d := &element.IdentificationDataElement{}
		decode(c, kind, d, b)
		same(c, kind, d.Val(), s, b)
	case "code":
		b = encoded(c, kind, element.NewCode(s, 99, []string{s}), s)
		d := &element.CodeDataElement{}
		decode(c, kind, d, b)
		same(c, kind, d.Val(), s, b)
	case "params":
		b = encoded(c, kind, element.NewParams(0, 10, s, "x", s), s, "x", s)
		d := &element.ParamsDataElement{}
		decode(c, kind, d, b)
		want := []string{s, "x", s}
		if s == "" {
			// a trailing empty parameter is the same as none
			want = want[:2]
		}
		same(c, kind, d.Val(), want, b)
	}
	if want := wire.Esc(latin1(s)); kind != "params" && string(b) != want {
		c.Fail("encoding:"+kind, "%s %q is encoded as %q, expected %q", kind, s, b, want)
	}
	c.StateBytes(b)
}

var trickyText = []string{"", "a", "?", "+", ":", "'", "@", "a?", "b+", "c:", "d'", "e@", "??", "?:", "::", "@1@x", "Müller & Söhne", "1", "0", "x y"}

func init() {
	engine.Register("C10", func(r *engine.Runner) {
		alpha := []string{"a", "?", "+", ":", "'", "@", "0", "ß", " "}
		depth := r.Pick(5, 6)
		r.ExploreBetween("text-strings", fmt.Sprintf("every string up to length %d over %q, in every text-like element", depth, alpha), 0, func(c *engine.Ctx) {
			n := c.Choose(depth+1, "len")
			s := ""
			for i := 0; i < n; i++ {
				s += alpha[c.Choose(len(alpha), "c")]
			}
			textKinds(c, s)
		})
		r.ExploreBetween("text-chars", "every pair of characters of the character set (control characters other than line breaks excluded), in every text-like element", 0, func(c *engine.Ctx) {
			ch := func(l string) string {
				k := c.Choose(256, l)
				if k < 32 && k != '\r' && k != '\n' {
					c.Stop()
				}
				return string(rune(k))
			}
			textKinds(c, ch("c0")+ch("c1"))
		})
		r.ExploreBetween("numbers", "every number 0..99999, every digit element of width 1..4, every country code", 0, func(c *engine.Ctx) {
			switch engine.Of(c, "kind", "number", "digit", "country") {
			case "number":
				n := c.Choose(100000, "n")
				b := encoded(c, "number", element.NewNumber(n, 5), fmt.Sprint(n))
				d := &element.NumberDataElement{}
				decode(c, "number", d, b)
				same(c, "number", d.Val(), n, b)
			case "digit":
				w := c.Choose(4, "width") + 1
				n := c.Choose([]int{10, 100, 1000, 10000}[w-1], "n")
				b := encoded(c, "digit", element.NewDigit(n, w), fmt.Sprintf("%0*d", w, n))
				d := &element.DigitDataElement{}
				decode(c, "digit", d, b)
				same(c, "digit", d.Val(), n, b)
			case "country":
				n := c.Choose(1000, "n")
				b := encoded(c, "country", element.NewCountryCode(n), fmt.Sprintf("%03d", n))
				d := &element.CountryCodeDataElement{}
				decode(c, "country", d, b)
				same(c, "country", d.Val(), n, b)
			}
		})
		amounts := r.Pick(200000, 2000000)
		r.ExploreBetween("amounts", fmt.Sprintf("every amount from 0,00 to %d,%02d in steps of one cent, and around every power of ten up to 10^12", amounts/100, amounts%100), 0, func(c *engine.Ctx) {
			var cents int64
			if c.Bool("large") {
				p := int64(1)
				for i := c.Choose(14, "pow"); i > 0; i-- {
					p *= 10
				}
				cents = p + int64(c.Choose(401, "d")) - 200
				if cents < 0 {
					c.Stop()
				}
			} else {
				cents = int64(c.Choose(1000, "a"))*int64(amounts/1000) + int64(c.Choose(amounts/1000, "b"))
			}
			// the nearest float to cents/100
			f, _ := new(big.Rat).SetFrac64(cents, 100).Float64()
			b, err := element.NewAmount(f, "EUR").MarshalHBCI()
			if err != nil {
				c.Fail("amount-error", "%v", err)
			}
			s := string(b)
			i := strings.IndexByte(s, ':')
			if i < 0 || s[i:] != ":EUR" {
				c.Fail("amount-currency", "amount %d cents EUR is encoded as %q", cents, s)
			}
			num := s[:i]
			k := strings.IndexByte(num, ',')
			if k < 1 || strings.Trim(num, "0123456789,") != "" || strings.Count(num, ",") != 1 || (k > 1 && num[0] == '0') {
				c.Fail("amount-format", "amount %d cents is encoded as %q", cents, num)
			}
			rat, ok := new(big.Rat).SetString(strings.TrimSuffix(strings.Replace(num, ",", ".", 1), "."))
			if !ok || rat.Cmp(new(big.Rat).SetFrac64(cents, 100)) != 0 {
				c.Fail("amount-value", "amount %d cents is encoded as %q", cents, num)
			}
			var a element.AmountDataElement
			decode(c, "amount", &a, b)
			same(c, "amount", a.Val(), domain.Amount{Amount: f, Currency: "EUR"}, b)
			// trailing zeros are legal on the wire
			long := fmt.Sprintf("%d,%02d:USD", cents/100, cents%100)
			var a2 element.AmountDataElement
			decode(c, "amount", &a2, []byte(long))
			same(c, "amount", a2.Val(), domain.Amount{Amount: f, Currency: "USD"}, []byte(long))
			c.State(fmt.Sprint(len(num), k))
		})
		r.ExploreBetween("dates", "every day from 1900-01-01 to 2099-12-31, every second of a day, both booleans", 0, func(c *engine.Ctx) {
			switch engine.Of(c, "kind", "date", "time", "bool") {
			case "date":
				d := time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(c.Choose(200, "y"), 0, 0)
				d = d.AddDate(0, 0, c.Choose(time.Date(d.Year()+1, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, -1).YearDay(), "d"))
				y, m, dd := d.Date()
				b := encoded(c, "date", element.NewDate(d), fmt.Sprintf("%04d%02d%02d", y, m, dd))
				e := &element.DateDataElement{}
				decode(c, "date", e, b)
				same(c, "date", e.Val(), d, b)
			case "time":
				s := c.Choose(240, "a")*360 + c.Choose(360, "b")
				t := time.Date(2026, 5, 4, s/3600, s/60%60, s%60, 0, time.UTC)
				b := encoded(c, "time", element.NewTime(t), fmt.Sprintf("%02d%02d%02d", s/3600, s/60%60, s%60))
				e := &element.TimeDataElement{}
				decode(c, "time", e, b)
				h, mi, se := e.Val().Clock()
				same(c, "time", h*3600+mi*60+se, s, b)
			case "bool":
				v := c.Bool("v")
				b := encoded(c, "bool", element.NewBoolean(v), map[bool]string{true: "J", false: "N"}[v])
				e := &element.BooleanDataElement{}
				decode(c, "bool", e, b)
				same(c, "bool", e.Val(), v, b)
			}
		})
		r.ExploreBetween("binary", "every byte string of length 0..2, every string up to length 5 over the syntax characters, runs of each syntax character of every length to 1100", 0, func(c *engine.Ctx) {
			var data []byte
			switch engine.Of(c, "kind", "short", "syntax", "long") {
			case "short":
				data = []byte{}
				for i := c.Choose(3, "len"); i > 0; i-- {
					data = append(data, byte(c.Choose(256, "b")))
				}
			case "syntax":
				data = []byte{}
				for i := c.Choose(6, "len"); i > 0; i-- {
					data = append(data, "@:+'?1"[c.Choose(6, "b")])
				}
			case "long":
				data = []byte(strings.Repeat("@:+'?\x00"[c.Choose(6, "b"):][:1], c.Choose(1101, "n")))
			}
			b := encoded(c, "binary", element.NewBinary(data, 4096), utf8Of(string(data)))
			if want := fmt.Sprintf("@%d@%s", len(data), data); string(b) != want {
				c.Fail("binary-encoding", "binary %q is encoded as %q", data, b)
			}
			d := &element.BinaryDataElement{}
			decode(c, "binary", d, b)
			same(c, "binary", string(d.Val()), string(data), b)
			c.StateBytes(data)
		})
		groups(r)
	})
}

func groups(r *engine.Runner) {
	tt := func(c *engine.Ctx, l string) string { return trickyText[c.Choose(len(trickyText), l)] }
	r.ExploreBetween("groups-text", fmt.Sprintf("data element groups whose text values all range over %d tricky values", len(trickyText)), 0, func(c *engine.Ctx) {
		kind := engine.Of(c, "kind", "bank", "account", "sepa", "keyname", "reference", "pintan", "ack", "header", "jobs")
		var b []byte
		switch kind {
		case "bank":
			v := domain.BankID{CountryCode: engine.Of(c, "cc", 280, 0, 7), ID: tt(c, "id")}
			b = encoded(c, kind, element.NewBankIdentification(v), fmt.Sprintf("%03d", v.CountryCode), v.ID)
			var d element.BankIdentificationDataElement
			if v.ID == "" {
				c.Stop() // a bank identification without the second element is malformed
			}
			decode(c, kind, &d, b)
			same(c, kind, d.Val(), v, b)
		case "account":
			v := domain.AccountConnection{AccountID: tt(c, "a"), SubAccountCharacteristics: tt(c, "s"), CountryCode: 280, BankID: tt(c, "b")}
			b = encoded(c, kind, element.NewAccountConnection(v), v.AccountID, v.SubAccountCharacteristics, "280", v.BankID)
			if v.BankID == "" {
				c.Stop()
			}
			var d element.AccountConnectionDataElement
			decode(c, kind, &d, b)
			same(c, kind, d.Val(), v, b)
		case "sepa":
			v := domain.InternationalAccountConnection{IBAN: engine.Of(c, "iban", "DE89370400440532013000", "", "?:"), BIC: engine.Of(c, "bic", "COBADEFFXXX", ""), AccountID: tt(c, "a"), SubAccountCharacteristics: engine.Of(c, "s", "", "x+", "?"), BankID: domain.BankID{CountryCode: 280, ID: tt(c, "b")}}
			b = encoded(c, kind, element.NewInternationalAccountConnection(v), v.IBAN, v.BIC, v.AccountID, v.SubAccountCharacteristics, "280", v.BankID.ID)
			if v.BankID.ID == "" {
				c.Stop()
			}
			var d element.InternationalAccountConnectionDataElement
			decode(c, kind, &d, b)
			same(c, kind, d.Val(), v, b)
		case "keyname":
			v := domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: tt(c, "b")}, UserID: tt(c, "u"), KeyType: engine.Of(c, "t", domain.KeyType("S"), domain.KeyType("V")), KeyNumber: engine.Of(c, "n", 0, 1, 999), KeyVersion: engine.Of(c, "v", 0, 12)}
			if v.UserID == "" || v.BankID.ID == "" {
				c.Stop() // mandatory elements
			}
			b = encoded(c, kind, element.NewKeyName(v), "280", v.BankID.ID, v.UserID, string(v.KeyType), fmt.Sprint(v.KeyNumber), fmt.Sprint(v.KeyVersion))
			var d element.KeyNameDataElement
			decode(c, kind, &d, b)
			same(c, kind, d.Val(), v, b)
		case "reference":
			v := domain.MessageReference{DialogID: tt(c, "id"), MessageNumber: engine.Of(c, "n", 0, 1, 9999)}
			b = encoded(c, kind, element.NewReferencingMessage(v.DialogID, v.MessageNumber), v.DialogID, fmt.Sprint(v.MessageNumber))
			var d element.ReferencingMessageDataElement
			decode(c, kind, &d, b)
			same(c, kind, d.Val(), v, b)
		case "pintan":
			pin, tan := tt(c, "pin"), tt(c, "tan")
			if c.Bool("custom") {
				b = encoded(c, kind, element.NewCustomSignature(pin, tan), pin, tan)
			} else {
				b = encoded(c, kind, element.NewPinTan(pin, tan), pin, tan)
			}
			if tan == "" {
				c.Stop()
			}
			var d element.PinTanDataElement
			decode(c, kind, &d, b)
			got := [2]string{}
			if d.PIN != nil {
				got[0] = d.PIN.Val()
			}
			if d.TAN != nil {
				got[1] = d.TAN.Val()
			}
			same(c, kind, got, [2]string{pin, tan}, b)
		case "ack":
			v := domain.Acknowledgement{Code: engine.Of(c, "code", 10, 3040, 9999, 0), ReferenceDataElement: engine.Of(c, "ref", "", "5,3", "?+"), Text: tt(c, "text")}
			for i := c.Choose(3, "params"); i > 0; i-- {
				v.Params = append(v.Params, tt(c, "p"))
			}
			want := append([]string{fmt.Sprintf("%04d", v.Code), v.ReferenceDataElement, v.Text}, v.Params...)
			b = encoded(c, kind, element.NewAcknowledgement(v), want...)
			if n := len(v.Params); v.Text == "" && n == 0 || n > 0 && v.Params[n-1] == "" {
				c.Stop() // text is mandatory; a trailing empty parameter is the same as none
			}
			var d element.AcknowledgementDataElement
			decode(c, kind, &d, b)
			got := d.Val()
			if len(got.Params) == 0 {
				got.Params = nil
			}
			same(c, kind, got, v, b)
		case "header":
			id := engine.Of(c, "id", "HNHBK", "HKIDN", "HITANS", "DIPINS")
			pos := engine.Of(c, "pos", 1, 2, 99, 998)
			ver := engine.Of(c, "ver", 1, 6, 220)
			ref := engine.Of(c, "ref", -1, 0, 3, 999)
			want := []string{id, fmt.Sprint(pos), fmt.Sprint(ver)}
			h := element.NewSegmentHeader(id, pos, ver)
			if ref >= 0 {
				h = element.NewReferencingSegmentHeader(id, pos, ver, ref)
				want = append(want, fmt.Sprint(ref))
			}
			b = encoded(c, kind, h, want...)
			d := &element.SegmentHeader{}
			decode(c, kind, d, b)
			same(c, kind, []any{d.ID.Val(), d.Position.Val(), d.Version.Val(), d.ReferencingSegment()}, []any{id, pos, ver, ref}, b)
		case "jobs":
			var v []domain.PinTanBusinessTransaction
			var want []string
			for i := c.Choose(3, "n"); i >= 0; i-- {
				t := domain.PinTanBusinessTransaction{SegmentID: engine.Of(c, "id", "HKSAL", "HKTAN", "A?:", "+"), NeedsTan: c.Bool("tan")}
				v = append(v, t)
				want = append(want, t.SegmentID, map[bool]string{true: "J", false: "N"}[t.NeedsTan])
			}
			b = encoded(c, kind, element.NewPinTanBusinessTransactionParameters(v), want...)
			d := &element.PinTanBusinessTransactionParameters{}
			decode(c, kind, d, b)
			same(c, kind, d.Val(), v, b)
		}
		c.StateBytes([]byte(kind), b)
	})
	r.ExploreBetween("groups-balance", "balances: sign, amount, currency, date, with and without time; account limits; allowed business transactions; address", 0, func(c *engine.Ctx) {
		kind := engine.Of(c, "kind", "balance", "jobs-allowed", "limit", "versions", "languages", "address", "commparam")
		var b []byte
		switch kind {
		case "balance":
			cents := engine.Of(c, "cents", 0, 1, 10, 99, 100, 101, 12345, 1000000, 99999999)
			neg := c.Bool("neg") && cents > 0
			withTime := c.Bool("time")
			f := float64(cents) / 100
			sign := "C"
			if neg {
				f, sign = -f, "D"
			}
			t := time.Date(2016, 2, 29, 23, 59, 58, 0, time.UTC)
			de := element.NewBalance(domain.Amount{Amount: f, Currency: "EUR"}, t, withTime)
			b = mustMarshal(c, de)
			parts := strings.Split(string(b), ":")
			if parts[0] != sign || parts[2] != "EUR" || parts[3] != "20160229" {
				c.Fail("balance-wire", "balance %v is encoded as %q", f, b)
			}
			var d element.BalanceDataElement
			decode(c, kind, &d, b)
			got := d.Balance()
			if got.Amount.Amount != f || got.Amount.Currency != "EUR" || !got.TransmissionDate.Equal(time.Date(2016, 2, 29, 0, 0, 0, 0, time.UTC)) || (got.TransmissionTime != nil) != withTime {
				c.Fail("roundtrip:balance", "balance %v of %v is encoded as %q and decoded as %+v", f, t, b, got)
			}
			if withTime && got.TransmissionTime.Format("150405") != "235958" {
				c.Fail("roundtrip:balance-time", "%q is decoded as %v", b, got.TransmissionTime)
			}
			c.Validated()
		case "jobs-allowed":
			v := domain.BusinessTransaction{ID: engine.Of(c, "id", "HKSAL", "HKUEB", "A?:"), NeededSignatures: c.Choose(3, "sig")}
			if c.Bool("limit") {
				v.Limit = &domain.AccountLimit{Kind: engine.Of(c, "kind", "E", "T", "W", "M", "Z"), Amount: domain.Amount{Amount: float64(engine.Of(c, "amt", 0, 100, 100050)) / 100, Currency: engine.Of(c, "cur", "EUR", "CHF")}, Days: engine.Of(c, "days", 0, 7, 30)}
			}
			de := element.NewAllowedBusinessTransaction(v)
			b = mustMarshal(c, de)
			var d element.AllowedBusinessTransactionDataElement
			decode(c, kind, &d, b)
			same(c, kind, d.Val(), v, b)
		case "limit":
			v := domain.AccountLimit{Kind: engine.Of(c, "kind", "E", "T", "W", "M", "Z"), Amount: domain.Amount{Amount: float64(engine.Of(c, "amt", 0, 100, 100050)) / 100, Currency: engine.Of(c, "cur", "EUR", "CHF")}, Days: engine.Of(c, "days", 0, 7, 30)}
			b = mustMarshal(c, element.NewAccountLimit(v.Kind, v.Amount.Amount, v.Amount.Currency, v.Days))
			var d element.AccountLimitDataElement
			decode(c, kind, &d, b)
			same(c, kind, d.Val(), v, b)
		case "versions":
			vs := []int{}
			for i := c.Choose(3, "n"); i >= 0; i-- {
				vs = append(vs, engine.Of(c, "v", 201, 210, 220, 300))
			}
			var want []string
			for _, v := range vs {
				want = append(want, fmt.Sprint(v))
			}
			b = encoded(c, kind, element.NewSupportedHBCIVersions(vs...), want...)
			d := &element.SupportedHBCIVersionsDataElement{}
			decode(c, kind, d, b)
			if got := fmt.Sprint(d.Value()); got != fmt.Sprint(vs) {
				c.Fail("roundtrip:versions", "%v is encoded as %q and decoded as %v", vs, b, got)
			}
			c.Validated()
		case "languages":
			vs := []int{}
			for i := c.Choose(3, "n"); i >= 0; i-- {
				vs = append(vs, engine.Of(c, "v", 1, 2, 3))
			}
			var want []string
			for _, v := range vs {
				want = append(want, fmt.Sprint(v))
			}
			b = encoded(c, kind, element.NewSupportedLanguages(vs...), want...)
			d := &element.SupportedLanguagesDataElement{}
			decode(c, kind, d, b)
			if got := fmt.Sprint(d.Value()); got != fmt.Sprint(vs) {
				c.Fail("roundtrip:languages", "%v is encoded as %q and decoded as %v", vs, b, got)
			}
			c.Validated()
		case "address":
			v := domain.Address{Name1: tt(c, "n"), Name2: engine.Of(c, "n2", "", "x:"), Street: "S 1", PLZ: "12345", City: tt(c, "c"), CountryCode: 280, Phone: engine.Of(c, "p", "", "+49"), Fax: "", Email: engine.Of(c, "e", "", "a@b", "x:")}
			b = encoded(c, kind, element.NewAddress(v), v.Name1, v.Name2, v.Street, v.PLZ, v.City, "280", v.Phone, v.Fax, v.Email)
		case "commparam":
			v := domain.CommunicationParameter{Protocol: engine.Of(c, "p", 2, 3), Address: tt(c, "a"), AddressAddition: tt(c, "aa"), FilterFunction: engine.Of(c, "f", "MIM", ""), FilterFunctionVersion: 1}
			b = encoded(c, kind, element.NewCommunicationParameter(v), fmt.Sprint(v.Protocol), v.Address, v.AddressAddition, v.FilterFunction, "1")
		}
		c.StateBytes([]byte(kind), b)
	})
}

func mustMarshal(c *engine.Ctx, de element.DataElement) []byte {
	b, err := de.MarshalHBCI()
	if err != nil {
		c.Fail("marshal-error", "%v", err)
	}
	c.Between()
	return b
}
