package props

import (
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/iban"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

// The IBAN registry: total length by country.
const ibanRegistry = "AL28 AD24 AZ28 BH22 BE16 BA20 BR29 VG24 BG22 CR22 DK18 DE22 DO28 SV28 EE20 FO18 FI18 FR27 GE22 GI23 GR27 GL18 GB22 GT28 IQ23 IE22 IS26 IL23 IT27 JO30 KZ20 QA29 XK20 HR21 KW30 LV21 LB28 LI21 LT20 LU20 MT31 MR27 MU30 MK19 MD24 MC27 ME22 NL18 NO15 AT20 PK24 PS29 PL28 PT25 RO24 LC32 SM27 ST25 SA24 SE24 CH21 RS22 SC31 SK24 SI19 ES24 TL23 TR26 CZ24 TN24 UA29 HU28 AE23 BY28 CY28"

var ibanLen = func() map[string]int {
	m := map[string]int{}
	for _, f := range strings.Fields(ibanRegistry) {
		var n int
		fmt.Sscan(f[2:], &n)
		m[f[:2]] = n
	}
	return m
}()

func isAlnum(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z'
}

func isLetter(b byte) bool { return b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z' }

// mod97 of the digits of s with letters as 10..35.
func mod97(s string) int {
	r := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			r = (r*10 + int(c-'0')) % 97
		case c >= 'A' && c <= 'Z':
			r = (r*100 + int(c-'A') + 10) % 97
		case c >= 'a' && c <= 'z':
			r = (r*100 + int(c-'a') + 10) % 97
		}
	}
	return r
}

// ibanParts: can an account of this country have this number?
func ibanParts(cc, bban string) bool {
	if len(cc) != 2 || !isLetter(cc[0]) || !isLetter(cc[1]) || bban == "" {
		return false
	}
	max, ok := ibanLen[strings.ToUpper(cc)]
	if !ok {
		max = 34
	}
	if len(bban) > max-4 {
		return false
	}
	for i := 0; i < len(bban); i++ {
		if !isAlnum(bban[i]) {
			return false
		}
	}
	return true
}

func refIBAN(s string) bool {
	if len(s) < 5 || !ibanParts(s[:2], s[4:]) {
		return false
	}
	for _, b := range []byte(s[2:4]) {
		if b < '0' || b > '9' {
			return false
		}
	}
	// 00, 01 and 99 never come out of the computation
	if p := s[2:4]; p == "00" || p == "01" || p == "99" {
		return false
	}
	return mod97(s[4:]+s[:4]) == 1
}

func ibanNew(c *engine.Ctx, cc, bban string) {
	var got iban.IBAN
	var err error
	if p := engine.Guard(func() { got, err = iban.New(cc, bban) }); p != "" {
		c.Fail("panic:new", "New(%q, %q) panics: %s", cc, bban, p)
	}
	c.Between()
	if c.Verbose() {
		c.Logf("New(%q, %q) = %q, %v", cc, bban, got, err)
	}
	if !ibanParts(cc, bban) {
		if err == nil {
			c.Fail("accepts", "New(%q, %q) yields %q", cc, bban, got)
		}
		c.State("rejected")
		return
	}
	if err != nil {
		c.Fail("rejects", "New(%q, %q): %v", cc, bban, err)
	}
	want := fmt.Sprintf("%s%02d%s", strings.ToUpper(cc), 98-mod97(bban+cc+"00"), strings.ToUpper(bban))
	if string(got) != want {
		c.Fail("value", "New(%q, %q) is %q, it should be %q", cc, bban, got, want)
	}
	if got.CountryCode() != want[:2] || got.ProofNumber() != want[2:4] || got.BBAN() != want[4:] || got.String() != want {
		c.Fail("parts", "%q has country %q, proof number %q, account %q", want, got.CountryCode(), got.ProofNumber(), got.BBAN())
	}
	ibanCheck(c, want)
	c.State(want)
	c.Validated()
}

// ibanCheck compares the verdict on s.
func ibanCheck(c *engine.Ctx, s string) {
	want := refIBAN(s)
	var ok, valid bool
	var from iban.IBAN
	var err error
	if p := engine.Guard(func() { ok = iban.IsValid(s); from, err = iban.From(s); valid = iban.IBAN(s).Valid() }); p != "" {
		c.Fail("panic:check", "checking %q panics: %s", s, p)
	}
	c.Between()
	if c.Verbose() {
		c.Logf("%q: IsValid %v, From %q %v, Valid %v", s, ok, from, err, valid)
	}
	if ok != want {
		c.Fail("verdict", "IsValid(%q) is %v", s, ok)
	}
	if (err == nil) != want {
		c.Fail("from", "From(%q) yields %q, error %v", s, from, err)
	}
	if want && string(from) != strings.ToUpper(s) {
		c.Fail("from-value", "From(%q) is %q", s, from)
	}
	if want && !valid {
		c.Fail("valid", "%q does not count as valid", s)
	}
	if valid && len(s) >= 5 && mod97(s[4:]+s[:4]) != 1 {
		c.Fail("valid-checksum", "%q counts as valid", s)
	}
	if p := engine.Guard(func() {
		i := iban.IBAN(s)
		_, _, _, _, _ = i.BankID(), i.AccountID(), i.BBAN(), i.ProofNumber(), i.CountryCode()
	}); p != "" && want {
		c.Fail("panic:parts", "the parts of the valid IBAN %q: %s", s, p)
	}
	printed := iban.Print(iban.IBAN(s))
	if want && strings.ReplaceAll(printed, " ", "") != s {
		c.Fail("print", "%q prints as %q", s, printed)
	}
	if want {
		for i, g := range strings.Split(printed, " ") {
			if len(g) != 4 && i != (len(s)-1)/4 {
				c.Fail("print-groups", "%q prints as %q", s, printed)
			}
		}
	}
}

func init() {
	engine.Register("C17", func(r *engine.Runner) {
		letters := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
		r.ExploreBetween("countries", "every pair of letters as country code in upper, lower and mixed case, with account numbers of every length 0..34 of each of five patterns", 0, func(c *engine.Ctx) {
			cc := string(letters[c.Choose(26, "c1")]) + string(letters[c.Choose(26, "c2")])
			switch c.Choose(3, "case") {
			case 1:
				cc = strings.ToLower(cc)
			case 2:
				cc = cc[:1] + strings.ToLower(cc[1:])
			}
			n := c.Choose(35, "len")
			pat := engine.Of(c, "pattern", "0", "9", "12345678901", "AZ09", "citi")
			ibanNew(c, cc, strings.Repeat(pat, n/len(pat)+1)[:n])
		})
		depth := r.Pick(4, 5)
		chars := []string{"0", "1", "9", "A", "Z", "b", "-", "+", " ", "_", ".", "\xfc", "ü", "\x00", "?", "ſ"}
		r.Explore("short-accounts", fmt.Sprintf("account numbers of every string up to length %d over %d characters including every kind of illegal one", depth, len(chars)), 0, func(c *engine.Ctx) {
			cc := engine.Of(c, "cc", "DE", "gb", "XX", "NO")
			b := ""
			for i := c.Choose(depth+1, "n"); i > 0; i-- {
				b += chars[c.Choose(len(chars), "b")]
			}
			ibanNew(c, cc, b)
		})
		r.Explore("bad-countries", "country codes of every string up to three characters that is not two letters", 0, func(c *engine.Ctx) {
			cs := []string{"A", "d", "0", "9", "-", "+", " ", "ä", "\x00", "ſ"}
			cc := ""
			for i := c.Choose(4, "n"); i > 0; i-- {
				cc += cs[c.Choose(len(cs), "b")]
			}
			ibanNew(c, cc, engine.Of(c, "bban", "1", "100500000024290661", "CITI18500811417983"))
		})
		valid := []string{"DE02100500000024290661", "GB11CITI18500811417983", "NO0239916835985", "MT02VALL22013000000040013752732", "CH020020720710117540C", "XX54ABC1"}
		alnum := "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz-+ ?\xfc"
		r.ExploreBetween("errors", fmt.Sprintf("each of %d IBANs with every single character replaced, inserted, removed, every two adjacent swapped, every two characters replaced by two others (digits), and every prefix", len(valid)), 0, func(c *engine.Ctx) {
			s := valid[c.Choose(len(valid), "iban")]
			if s == "XX54ABC1" {
				s = fmt.Sprintf("XX%02dABC1", 98-mod97("ABC1XX00"))
			}
			switch c.Choose(6, "kind") {
			case 0:
				i := c.Choose(len(s), "i")
				s = s[:i] + string(alnum[c.Choose(len(alnum), "b")]) + s[i+1:]
			case 1:
				i := c.Choose(len(s)+1, "i")
				s = s[:i] + string(alnum[c.Choose(len(alnum), "b")]) + s[i:]
			case 2:
				i := c.Choose(len(s), "i")
				s = s[:i] + s[i+1:]
			case 3:
				i := c.Choose(len(s)-1, "i")
				s = s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:]
			case 4:
				i := c.Choose(len(s)-1, "i")
				j := i + 1 + c.Choose(len(s)-1-i, "j")
				b := []byte(s)
				b[i], b[j] = "0123456789"[c.Choose(10, "b1")], "0123456789"[c.Choose(10, "b2")]
				s = string(b)
			case 5:
				s = s[:c.Choose(len(s)+1, "n")]
			}
			ibanCheck(c, s)
			c.State(s)
			c.Validated()
		})
		r.ExploreBetween("check-digits", "the five countries and every possible pair of check characters: exactly one pair is accepted", 0, func(c *engine.Ctx) {
			s := valid[c.Choose(5, "iban")]
			ds := "0123456789-+ A"
			s = s[:2] + string(ds[c.Choose(len(ds), "d1")]) + string(ds[c.Choose(len(ds), "d2")]) + s[4:]
			ibanCheck(c, s)
			c.State(s)
			c.Validated()
		})
		vd := r.Pick(5, 6)
		r.Explore("short-strings", fmt.Sprintf("every string up to length %d over 12 characters", vd), 0, func(c *engine.Ctx) {
			cs := "DEe0189-+ \xc3\xbc"
			b := make([]byte, c.Choose(vd+1, "n"))
			for i := range b {
				b[i] = cs[c.Choose(len(cs), "b")]
			}
			ibanCheck(c, string(b))
			c.State(fmt.Sprint(len(b), refIBAN(string(b))))
			c.Validated()
		})
		digits := r.Pick(5, 6)
		r.ExploreBetween("german", fmt.Sprintf("German accounts: every account number of up to %d digits including leading zeros, numbers of every length up to 12, for four bank ids", digits), 0, func(c *engine.Ctx) {
			bank := engine.Of(c, "bank", "10090044", "00000000", "99999999", "50010517")
			acct := ""
			if c.Bool("long") {
				n := c.Choose(13, "len")
				acct = strings.Repeat(engine.Of(c, "pat", "0", "1", "9", "1234567890", "0123", "5000000000"), 12)[:n]
			} else {
				for i := 1 + c.Choose(digits, "n"); i > 0; i-- {
					acct += string('0' + rune(c.Choose(10, "d")))
				}
			}
			got, err := iban.NewGerman(bank, acct)
			if c.Verbose() {
				c.Logf("NewGerman(%q, %q) = %q, %v", bank, acct, got, err)
			}
			if len(acct) > 10 {
				if err == nil {
					c.Fail("german-accepts", "NewGerman(%q, %q) yields %q", bank, acct, got)
				}
				return
			}
			if acct == "" {
				return
			}
			bban := bank + strings.Repeat("0", 10-len(acct)) + acct
			want := fmt.Sprintf("DE%02d%s", 98-mod97(bban+"DE00"), bban)
			if err != nil || string(got) != want {
				c.Fail("german", "NewGerman(%q, %q) is %q (error %v), it should be %q", bank, acct, got, err, want)
			}
			if got.BankID() != bank || got.AccountID() != strings.TrimLeft(acct, "0") || !got.Valid() || !iban.IsValid(want) {
				c.Fail("german-parts", "%q: bank %q, account %q, valid %v", got, got.BankID(), got.AccountID(), got.Valid())
			}
			c.State(want)
			c.Validated()
		})
	})
}
