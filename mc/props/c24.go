package props

import (
	"bytes"
	"crypto/rsa"
	"errors"
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
	"golang.org/x/crypto/ripemd160"
)

// C24: what is signed and encrypted is exactly what is sent.

// notary is a signature provider that records what it is given to sign.
type notary struct {
	got  [][]byte
	fail error
}

func (n *notary) SetSecurityFunction(string) {}
func (n *notary) SetClientSystemID(string)   {}
func (n *notary) Sign(m []byte) ([]byte, error) {
	n.got = append(n.got, append([]byte(nil), m...))
	return []byte("signed'+@"), n.fail
}
func (n *notary) WriteSignatureHeader(h segment.SignatureHeader) {
	h.SetSecurityFunction("999")
	h.SetClientSystemID("SYS1")
	h.SetSigningKeyName(*domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: wBank}, wUser, "S"))
	h.SetControlReference("REF1")
	h.SetSignatureID(0)
}
func (n *notary) WriteSignature(e segment.SignatureEnd, s []byte) {
	e.SetControlReference("REF1")
	e.SetSignature(s)
}

// vault is a crypto provider that turns every byte around.
type vault struct {
	got  [][]byte
	fail error
}

func turned(b []byte) []byte {
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = x ^ 0x5a
	}
	return out
}

func (v *vault) SetClientSystemID(string)   {}
func (v *vault) SetSecurityFunction(string) {}
func (v *vault) Encrypt(m []byte) ([]byte, error) {
	v.got = append(v.got, append([]byte(nil), m...))
	if v.fail != nil {
		return nil, v.fail
	}
	return turned(m), nil
}
func (v *vault) Decrypt(m []byte) ([]byte, error) {
	if v.fail != nil {
		return nil, v.fail
	}
	return turned(m), nil
}
func (v *vault) WriteEncryptionHeader(h segment.EncryptionHeader) {
	h.SetClientSystemID("SYS1")
	h.SetSecurityProfile("999")
	h.SetEncryptionKeyName(*domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: wBank}, wUser, "V"))
	h.SetEncryptionAlgorithm(element.NewPinTanEncryptionAlgorithm())
}

// signedPart is the part of a signed message its signature covers.
func signedPart(m *wire.Message, raw string) string {
	return raw[m.SigHead.Off:m.SigEnd.Off]
}

func c24(r *engine.Runner) {
	devs := r.Pick(1, 2)
	most := r.Pick(40, 200)
	key, err := domain.GenerateSigningKey()
	if err != nil {
		panic(err)
	}
	signatures := func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		hv := segment.SupportedHBCIVersions[version]
		segs, ids := chooseJobs(c, 2, hv, frameTexts())
		m := message.NewBasicMessage(message.NewHBCIMessage(hv, segs...))
		m.Header = segment.NewMessageHeaderSegment(-1, version, "DLG1", 3)
		m.End = segment.NewMessageEndSegment(-1, 3)
		rdh := c.Bool("rsa")
		twice := c.Bool("signed again")
		n := &notary{}
		var prov message.SignatureProvider = n
		if rdh {
			rk := domain.NewRSAKey(key, domain.NewInitialKeyName(280, wBank, wUser, "S"))
			prov = message.NewRDHSignatureProvider(rk, 7)
		}
		c.State(fmt.Sprint(version, ids, rdh, twice, wireText(segs)))
		if p := engine.Guard(func() {
			sm, err := m.Sign(prov)
			if err == nil && twice {
				sm, err = m.Sign(prov)
			}
			if err != nil {
				c.Fail("refused", "signing %v: %v", ids, err)
			}
			raw, err := sm.MarshalHBCI()
			if err != nil {
				c.Fail("refused", "writing %v: %v", ids, err)
			}
			c.Between()
			x, err := wire.ParseMessage(string(raw))
			if err != nil || x.SigHead == nil || x.SigEnd == nil {
				c.Fail("unparseable", "writing %v gives %q: %v", ids, raw, err)
			}
			c.Validated()
			covered := signedPart(x, string(raw))
			if !rdh {
				if got := string(n.got[len(n.got)-1]); got != covered {
					c.Fail("covered", "signed is %q, sent is %q", got, covered)
				}
				if s := x.SigEnd.E(2, 0); s != "signed'+@" || !x.SigEnd.DE[2][0].Bin {
					c.Fail("signature", "the signature is sent as %q in %q", s, x.SigEnd.Raw)
				}
				return
			}
			h := ripemd160.New()
			h.Write([]byte(covered))
			if err := rsa.VerifyPKCS1v15(&key.SigningKey().PublicKey, 0, h.Sum(nil), []byte(x.SigEnd.E(2, 0))); err != nil {
				c.Fail("verify", "the signature in %q does not verify: %v", raw, err)
			}
		}); p != "" {
			c.Fail("panic", "%v: %s", ids, p)
		}
	}
	r.ExploreBetween("signatures", fmt.Sprintf("every message of up to 2 of 15 kinds of orders, signed by a provider that records what it signs or by an RSA key, signed again with a changed number, in HBCI 2.2 and FinTS 3.0, at most %d unusual texts", devs), devs, signatures)
	r.Explore("signatures of long messages", fmt.Sprintf("the same for messages of every number of orders up to %d and of 99, 100, 256 and 500, of each kind or of all kinds in turn", most), 0, func(c *engine.Ctx) {
		chooseCrowd(c, most, len(jobs()), 99, 100, 256, 500)
		signatures(c)
	})

	encryption := func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		hv := segment.SupportedHBCIVersions[version]
		segs, ids := chooseJobs(c, 2, hv, frameTexts())
		m := message.NewBasicMessage(message.NewHBCIMessage(hv, segs...))
		m.Header = segment.NewMessageHeaderSegment(-1, version, "DLG1", 3)
		m.End = segment.NewMessageEndSegment(-1, 3)
		how := c.Choose(5, "how")
		c.State(fmt.Sprint(version, ids, how, wireText(segs)))
		boom := errors.New("no key here")
		n, v := &notary{}, &vault{}
		switch how {
		case 2:
			n.fail = boom
		case 3:
			v.fail = boom
		}
		if p := engine.Guard(func() {
			if how == 0 {
				m.SetSegmentPositions()
			} else {
				sm, err := m.Sign(n)
				if n.fail != nil {
					if err == nil || !strings.Contains(err.Error(), boom.Error()) || sm != nil {
						c.Fail("sign-fault", "a provider that cannot sign: error %v", err)
					}
					return
				}
				if err != nil {
					c.Fail("refused", "signing %v: %v", ids, err)
				}
			}
			em, err := m.Encrypt(v)
			if v.fail != nil {
				if err == nil || !strings.Contains(err.Error(), boom.Error()) || em != nil {
					c.Fail("encrypt-fault", "a provider that cannot encrypt: error %v", err)
				}
				return
			}
			if err != nil {
				c.Fail("refused", "encrypting %v: %v", ids, err)
			}
			raw, err := em.MarshalHBCI()
			if err != nil {
				c.Fail("refused", "writing %v: %v", ids, err)
			}
			c.Between()
			plain, err := m.MarshalHBCI()
			if err != nil {
				c.Fail("refused", "writing %v: %v", ids, err)
			}
			c.Validated()
			outer, err := wire.Parse(string(raw))
			if err != nil || len(outer) != 4 || outer[2].ID != "HNVSD" {
				c.Fail("unparseable", "%q: %v", raw, err)
			}
			if got := outer[2].E(1, 0); got != string(turned(v.got[0])) || !outer[2].DE[1][0].Bin {
				c.Fail("sent", "encrypted is %q, sent is %q", turned(v.got[0]), got)
			}
			inner, err := wire.Parse(string(plain))
			if err != nil {
				c.Fail("unparseable", "%q: %v", plain, err)
			}
			want := string(plain[inner[1].Off:inner[len(inner)-1].Off])
			if string(v.got[0]) != want {
				c.Fail("covered", "encrypted is %q, the message is %q", v.got[0], want)
			}
			// the other way round
			if how == 4 {
				v.fail = boom
				if bm, err := em.Decrypt(v); err == nil || !strings.Contains(err.Error(), boom.Error()) || bm != nil {
					c.Fail("decrypt-fault", "a provider that cannot decrypt: error %v", err)
				}
				return
			}
			bm, err := em.Decrypt(v)
			if err != nil {
				c.Fail("decrypt", "decrypting %q: %v", want, err)
			}
			c.Between()
			for _, s := range inner[1 : len(inner)-1] {
				found := false
				for _, f := range bm.FindMarshaledSegments(s.ID) {
					found = found || bytes.Equal(f, []byte(s.Raw))
				}
				if !found {
					c.Fail("decrypted", "after decrypting %q, %q is missing", want, s.Raw)
				}
			}
			if h := bm.MessageHeader(); h == nil || h.Number.Val() != 3 || h.DialogID.Val() != "DLG1" {
				c.Fail("decrypted", "after decrypting, the header is %v", h)
			}
		}); p != "" {
			c.Fail("panic", "%v: %s", ids, p)
		}
	}
	r.ExploreBetween("encryption", fmt.Sprintf("every message of up to 2 of 15 kinds of orders, unsigned, signed, and with failing providers, encrypted by a provider that records what it encrypts, written, and decrypted again, at most %d unusual texts", devs), devs, encryption)
	r.Explore("encryption of long messages", fmt.Sprintf("the same for messages of every number of orders up to %d and of 99, 100, 256 and 500, of each kind or of all kinds in turn", most), 0, func(c *engine.Ctx) {
		chooseCrowd(c, most, len(jobs()), 99, 100, 256, 500)
		encryption(c)
	})
}

// wireText is the text of orders.
func wireText(segs []segment.ClientSegment) string {
	var out string
	for _, s := range segs {
		b, err := s.MarshalHBCI()
		out += fmt.Sprintf("%q%v", b, err)
	}
	return out
}

func init() { engine.Register("C24", c24) }
