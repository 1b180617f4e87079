package props

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// The dialog world: one PIN/TAN dialog, one scripted bank, a sequence of
// operations. The bank's answers are described abstractly (ans); the monitors
// of C01..C05 fold over the exchanged messages and compare what the client
// sends and reports with the reference state.

// ackc is an acknowledgement code with its text.
type ackc struct {
	Code   int
	Text   string
	Params []string
	Seg    bool // HIRMS instead of HIRMG
	Ref    int
}

// ans is the abstract meaning of one answer.
type ans struct {
	Name   string
	Fault  bool // no usable answer: whatever was requested failed
	Acks   []ackc
	Dialog string
	SysID  string
	BPD    int
	Name1  string // bank name
	Params []segment.VersionedSegment
	UPD    int
	User   string
	Accts  []string
	Tans   []string // announced security functions (HITANS)
	Plain  bool     // answer not encrypted
	Raw    *bank.Reply
	Extra  []string
	Before []string // segments before the acknowledgements
	Late   bool     // segment acknowledgements precede the message acknowledgement
	Pins   []string // PIN/TAN job list (job, J/N pairs), nil: not delivered
	HasUPD bool
}

func (a *ans) isErr() bool {
	for _, k := range a.Acks {
		if k.Code >= 9000 {
			return true
		}
	}
	return false
}

// allowed returns the security functions the bank both allows (3920) and
// describes, and whether the answer speaks about security functions at all.
func (a *ans) allowed() (map[string]bool, bool) {
	if len(a.Tans) == 0 {
		return nil, false
	}
	for _, k := range a.Acks {
		if k.Code == 3920 {
			out := map[string]bool{}
			for _, p := range k.Params {
				for _, t := range a.Tans {
					if t == p {
						out[p] = true
					}
				}
			}
			return out, true
		}
	}
	return nil, false
}

func (a *ans) render(m *wire.Message, version int) bank.Reply {
	if a.Raw != nil {
		return *a.Raw
	}
	var body strings.Builder
	for _, s := range a.Before {
		body.WriteString(s)
	}
	var mg []wire.G
	for _, k := range a.Acks {
		if !k.Seg {
			mg = append(mg, bank.Ack(k.Code, k.Text, k.Params...))
		}
	}
	if len(mg) > 0 && !a.Late {
		body.WriteString(bank.RMG(mg...))
	}
	// consecutive segment acknowledgements with the same reference share a segment
	for i := 0; i < len(a.Acks); {
		if !a.Acks[i].Seg {
			i++
			continue
		}
		j := i
		var sg []wire.G
		for j < len(a.Acks) && a.Acks[j].Seg && a.Acks[j].Ref == a.Acks[i].Ref {
			sg = append(sg, bank.Ack(a.Acks[j].Code, a.Acks[j].Text, a.Acks[j].Params...))
			j++
		}
		body.WriteString(bank.RMS(a.Acks[i].Ref, sg...))
		i = j
	}
	if len(mg) > 0 && a.Late {
		body.WriteString(bank.RMG(mg...))
	}
	if a.BPD > 0 {
		body.WriteString(bank.BPA(version, a.BPD, a.Name1))
	}
	for _, p := range a.Params {
		body.WriteString(bank.Param(p.ID, p.Version))
	}
	if len(a.Tans) > 0 {
		body.WriteString(bank.TANS(a.Tans...))
	}
	if a.Pins != nil {
		body.WriteString(bank.PINS(a.Pins...))
	}
	if a.HasUPD {
		body.WriteString(bank.UPA(version, a.UPD, a.User))
	}
	for _, acc := range a.Accts {
		body.WriteString(bank.UPD(version, a.User, acc))
	}
	if a.SysID != "" {
		body.WriteString(bank.SYN(version, a.SysID))
	}
	for _, s := range a.Extra {
		body.WriteString(s)
	}
	b := body.String()
	if m.Encrypted && !a.Plain {
		return bank.Reply{Text: wire.Encrypted(version, a.Dialog, m.Number, m.Number, b)}
	}
	return bank.Reply{Text: wire.Plain(version, a.Dialog, m.Number, m.Number, b)}
}

// worldTexts are the texts of a history that may be anything, as they are on the wire.
type worldTexts struct {
	user, pin, ownSys, ownSec string // the user's
	dialog, sys, customer     string // the bank's, if not made up
}

// ref is the reference state of the dialog.
type ref struct {
	version  int
	userID   string
	clientID string
	sysID    string
	pin      string
	texts    worldTexts
	sec      map[string]bool // possible current security functions
	bpd      int
	bankName string
	params   []segment.VersionedSegment
	pins     map[string]bool
	upd      int
	accts    []string
	product  string
	prodVer  string
	// current dialog
	dialogID string
	num      int
}

func (r *ref) key() string {
	var sec []string
	for s := range r.sec {
		sec = append(sec, s)
	}
	sort.Strings(sec)
	return fmt.Sprintf("%d|%s|%s|%s|%v|%d|%s|%v|%v|%d|%v|%s|%d", r.version, r.clientID, r.sysID, r.pin, sec, r.bpd, r.bankName, r.params, r.pins, r.upd, r.accts, r.dialogID, r.num)
}

// step is one exchange with its abstract answer.
type step struct {
	x    *bank.Exchange
	a    *ans
	anon bool
}

type world struct {
	c         *engine.Ctx
	d         *dialog.PinTanDialog
	hv        segment.HBCIVersion
	bank      *bank.Bank
	steps     []step
	ref       ref
	menu      func(w *world, kind string, m *wire.Message) []*ans
	nDlg      int
	nSys      int
	op        string
	anon      bool
	banksV    int // current BPD version at the bank
	banksU    int
	sysBefore string

	cw         *cworld                    // the client, if the operations are those of the client
	offered    []segment.VersionedSegment // announced when the order was chosen
	offeredSet bool
}

const (
	wUser = "12345"
	wBank = "10000000"
)

func newWorld(c *engine.Ctx, version int, menu func(w *world, kind string, m *wire.Message) []*ans) *world {
	return newWorldOf(c, version, menu, worldTexts{})
}

func newWorldOf(c *engine.Ctx, version int, menu func(w *world, kind string, m *wire.Message) []*ans, t worldTexts) *world {
	usual := func(p *string, s string) {
		if *p == "" {
			*p = s
		}
	}
	usual(&t.user, wUser)
	usual(&t.pin, "98765")
	usual(&t.ownSys, "USERSYS")
	usual(&t.ownSec, "901")
	w := &world{c: c, menu: menu, banksV: 78, banksU: 4}
	w.hv = segment.SupportedHBCIVersions[version]
	w.bank = &bank.Bank{}
	w.bank.Answer = w.answer
	w.ref = ref{version: version, texts: t, userID: t.user, clientID: t.user, sysID: "0", sec: map[string]bool{"999": true}, product: "prod", prodVer: "1.0"}
	w.d = dialog.NewPinTanDialog(dialog.Config{
		BankID: domain.BankID{CountryCode: 280, ID: wBank}, HBCIURL: "https://bank.example/hbci", UserID: utf8Of(t.user),
		HBCIVersion: w.hv, ProductName: "prod", ProductVersion: "1.0", Transport: w.bank,
	})
	return w
}

func (w *world) answer(x *bank.Exchange, n int) bank.Reply {
	if x.Msg == nil {
		w.steps = append(w.steps, step{x: x, a: &ans{Name: "unparseable", Fault: true}})
		return bank.Reply{Err: errors.New("unparseable request")}
	}
	menu := w.menu(w, x.Kind, x.Msg)
	i := w.c.Dev(len(menu), fmt.Sprintf("%s/%s#%d", w.op, x.Kind, n))
	a := menu[i]
	w.c.Logf("  request %d: %s dialog=%q num=%d ids=%s -> %s", n, x.Kind, x.Msg.DialogID, x.Msg.Number, x.Msg.IDs(), a.Name)
	w.steps = append(w.steps, step{x: x, a: a, anon: w.anon})
	r := a.render(x.Msg, w.ref.version)
	if w.c.Verbose() {
		w.c.Logf("    >> %q", x.Raw)
		w.c.Logf("    << %q err=%v", r.Text, r.Err)
	}
	return r
}

// ---- answer menus ------------------------------------------------------------

func okAck() ackc { return ackc{Code: 10, Text: "Nachricht entgegengenommen"} }

func (w *world) base(kind string, m *wire.Message) *ans {
	a := &ans{Name: "ok", Dialog: m.DialogID, Acks: []ackc{okAck()}}
	switch kind {
	case "sync":
		w.nDlg++
		a.Dialog = fmt.Sprintf("DLG%d", w.nDlg)
		w.nSys++
		a.SysID = fmt.Sprintf("SYS%d", w.nSys)
		if w.ref.texts.sys != "" {
			a.SysID = w.ref.texts.sys
		}
	case "init":
		w.nDlg++
		a.Dialog = fmt.Sprintf("DLG%d", w.nDlg)
	case "order":
		a.Acks = append(a.Acks, ackc{Code: 20, Text: "Auftrag ausgefuehrt", Seg: true, Ref: 4})
		if w.cw != nil {
			a.Extra = orderAnswer(m)
		}
	case "end":
		a.Acks = append(a.Acks, ackc{Code: 100, Text: "Dialog beendet", Seg: true, Ref: 3})
	}
	if kind == "sync" || kind == "init" {
		if w.ref.texts.dialog != "" {
			a.Dialog = w.ref.texts.dialog
		}
		v := m.Find("HKVVB")
		if v.E(1, 0) != strconv.Itoa(w.banksV) {
			w.addBPD(a, w.banksV)
		}
		if v.E(2, 0) != strconv.Itoa(w.banksU) && !w.anon {
			w.addUPD(a, w.banksU)
		}
	}
	return a
}

func (w *world) addBPD(a *ans, v int) {
	a.BPD = v
	a.Name1 = fmt.Sprintf("Bank %d", v)
	a.Params = []segment.VersionedSegment{{ID: "HISALS", Version: 5}, {ID: "HIKAZS", Version: 5}}
	a.Pins = []string{"HKSAL", "N", "HKKAZ", "J"}
	if v%2 == 1 {
		a.Pins = []string{"HKSAL", "J", "HKPRO", "N", "HKSAL", "J"}
		a.Params = []segment.VersionedSegment{{ID: "HISALS", Version: 6}, {ID: "HISALS", Version: 5}, {ID: "HIKAZS", Version: 6}, {ID: "HIXYZS", Version: 1},
			{ID: "HITANS", Version: 4}, {ID: "HITANS", Version: 7}, {ID: "HIPINS", Version: 2}}
	}
	if w.cw != nil {
		// the orders of the client in a version that comes and goes
		a.Params = append(a.Params, [][]segment.VersionedSegment{
			{{ID: "HISALS", Version: 7}, {ID: "HIPROS", Version: 3}},
			{{ID: "HIPROS", Version: 4}, {ID: "HIPROS", Version: 3}, {ID: "HIKAZS", Version: 7}},
			{{ID: "HISALS", Version: 8}, {ID: "HIKAZS", Version: 7}, {ID: "HIKAZS", Version: 6}},
		}[v%3]...)
	}
}

func (w *world) addUPD(a *ans, v int) {
	a.HasUPD = true
	a.UPD = v
	a.User = "KND" + strconv.Itoa(v)
	if w.ref.texts.customer != "" {
		a.User = w.ref.texts.customer
	}
	a.Accts = []string{fmt.Sprintf("10%d", v), fmt.Sprintf("20%d", v)}
	if v%2 == 1 {
		a.Accts = []string{fmt.Sprintf("10%d", v)}
	}
}

func clone(a *ans, name string) *ans {
	b := *a
	b.Name = name
	b.Acks = append([]ackc(nil), a.Acks...)
	return &b
}

// errAns is an error answer: no data is delivered with it.
func errAns(a *ans, name string, acks ...ackc) *ans {
	return &ans{Name: name, Dialog: a.Dialog, Acks: acks}
}

func fault(name string, r bank.Reply) *ans { return &ans{Name: name, Fault: true, Raw: &r} }

var errNet = errors.New("connection reset by peer")

// errorMenu: the ways a bank reports an error.
func (w *world) errorMenu(a *ans) []*ans {
	e := func(code int, text string, seg bool, ref int) ackc {
		return ackc{Code: code, Text: text, Seg: seg, Ref: ref}
	}
	out := []*ans{
		errAns(a, "err-msg", e(9050, "Die Nachricht enthaelt Fehler", false, 0)),
		errAns(a, "err-seg", okAck(), e(9010, "Auftrag abgelehnt", true, 3)),
		errAns(a, "err-boundary-9000", e(9000, "Grenzfall", false, 0)),
		errAns(a, "err-9999", e(9999, "Letzter", true, 4)),
		errAns(a, "err-second-ack", okAck(), e(20, "ok", true, 3), e(9210, "Fehler: a+b", true, 3)),
		errAns(a, "err-second-segment", okAck(), e(20, "ok", true, 3), e(9340, "Pin falsch", true, 4)),
		errAns(a, "err-after-warning", e(3060, "Warnungen", false, 0), e(9930, "gesperrt", true, 2), e(9931, "wirklich gesperrt", true, 5)),
	}
	pl := errAns(a, "err-unencrypted", e(9110, "Unbekannter Aufbau", false, 0))
	pl.Plain = true
	out = append(out, pl)
	return out
}

func (w *world) faultMenu(a *ans, m *wire.Message, kind string) []*ans {
	good := a.render(m, w.ref.version).Text
	hdrless := strings.SplitN(good, "'", 2)[1]
	out := []*ans{
		fault("transport-error", bank.Reply{Err: errNet}),
		fault("body-error-empty", bank.Reply{Body: []byte{}, BodyErr: errNet}),
		fault("body-error-after", bank.Reply{Text: good, BodyErr: errNet}),
		fault("empty-body", bank.Reply{Body: []byte{}}),
		fault("html", bank.Reply{Body: []byte("<html>502 Bad Gateway</html>")}),
		fault("html-base64", bank.Reply{Text: "<html>502 Bad Gateway</html>"}),
		fault("no-header", bank.Reply{Text: hdrless}),
		fault("cut-in-segment", bank.Reply{Text: good[:len(good)-20]}),
	}
	return out
}

func (w *world) warnMenu(a *ans) []*ans {
	mk := func(name string, acks ...ackc) *ans {
		b := clone(a, name)
		b.Acks = append(b.Acks, acks...)
		return b
	}
	return []*ans{
		mk("warn-seg", ackc{Code: 3010, Text: "Es liegen keine Umsaetze vor", Seg: true, Ref: 9}),
		mk("warn-3000-3999", ackc{Code: 3000, Text: "w", Seg: true, Ref: 9}, ackc{Code: 3999, Text: "", Seg: true, Ref: 10}),
		mk("unknown-class", ackc{Code: 8999, Text: "unbekannt", Seg: true, Ref: 9}, ackc{Code: 1, Text: "x", Seg: true, Ref: 10}),
	}
}

// dataMenu: deliveries of parameters, identifiers, security functions.
func (w *world) dataMenu(kind string, a *ans, m *wire.Message) []*ans {
	var out []*ans
	if kind != "sync" && kind != "init" {
		return nil
	}
	b := clone(a, "new-bpd")
	w.addBPD(b, 79)
	out = append(out, b)
	b = clone(a, "bpd-without-jobs")
	w.addBPD(b, 80)
	b.Pins, b.Params = nil, nil
	out = append(out, b)
	if !w.anon {
		b = clone(a, "new-upd")
		w.addUPD(b, 5)
		out = append(out, b)
		b = clone(a, "upd-redelivered")
		w.addUPD(b, 4)
		w.addBPD(b, 78)
		out = append(out, b)
		b = clone(a, "upd-no-accounts")
		w.addUPD(b, 8)
		b.Accts = nil
		out = append(out, b)
	}
	b = clone(a, "odd-dialog-id")
	b.Dialog = "D+1:2?'@x"
	out = append(out, b)
	b = clone(a, "nothing-delivered")
	b.BPD, b.Params, b.Pins, b.HasUPD, b.Accts = 0, nil, nil, false, nil
	out = append(out, b)
	b = clone(a, "announcement")
	b.Extra = append(b.Extra, wire.S("HIKIM", 20, 2, 3, "Betreff", "Text der Mitteilung"))
	out = append(out, b)
	if kind == "sync" {
		b = clone(a, "odd-sysid")
		b.SysID = "S+Y:S?'1"
		out = append(out, b)
	}
	if !w.anon {
		b = clone(a, "secfn-one")
		b.Acks = append(b.Acks, ackc{Code: 3920, Text: "Zugelassene Verfahren", Params: []string{"920"}, Seg: true, Ref: 5})
		b.Tans = []string{"910", "920", "930"}
		out = append(out, b)
		b = clone(a, "secfn-two")
		b.Acks = append(b.Acks, ackc{Code: 3920, Text: "Zugelassene Verfahren", Params: []string{"930", "910", "977"}, Seg: true, Ref: 5})
		b.Tans = []string{"910", "920", "930"}
		out = append(out, b)
		b = clone(a, "secfn-only-hitans")
		b.Tans = []string{"910", "920"}
		out = append(out, b)
		b = clone(a, "secfn-only-3920")
		b.Acks = append(b.Acks, ackc{Code: 3920, Text: "Zugelassene Verfahren", Params: []string{"920"}, Seg: true, Ref: 5})
		out = append(out, b)
	}
	return out
}

// fullMenu is everything.
func fullMenu(w *world, kind string, m *wire.Message) []*ans {
	a := w.base(kind, m)
	out := []*ans{a}
	out = append(out, w.errorMenu(a)...)
	out = append(out, w.faultMenu(a, m, kind)...)
	out = append(out, w.warnMenu(a)...)
	out = append(out, w.dataMenu(kind, a, m)...)
	if kind == "sync" && !w.anon {
		b := clone(a, "no-hisyn")
		b.SysID, b.BPD, b.Params, b.Pins, b.HasUPD, b.Accts = "", 0, nil, nil, false, nil
		b.Fault = true
		out = append(out, b)
	}
	if (kind == "sync" || kind == "init") && !w.anon {
		b := &ans{Name: "secfn-none-usable", Dialog: a.Dialog, Acks: []ackc{okAck(), {Code: 3920, Text: "Z", Params: []string{"955"}, Seg: true, Ref: 5}}, Tans: []string{"910"}, Fault: true}
		out = append(out, b)
	}
	return out
}

// dialogMenu concentrates on dialog identity and coarse failures.
func smallMenu(w *world, kind string, m *wire.Message) []*ans {
	a := w.base(kind, m)
	out := []*ans{a}
	em := w.errorMenu(a)
	out = append(out, em[0], em[1], em[6])
	out = append(out, fault("transport-error", bank.Reply{Err: errNet}), fault("html-base64", bank.Reply{Text: "<html>"}))
	if kind == "sync" || kind == "init" {
		for _, b := range w.dataMenu(kind, a, m) {
			switch b.Name {
			case "new-bpd", "bpd-without-jobs", "new-upd", "odd-dialog-id", "odd-sysid", "secfn-one", "secfn-two", "upd-redelivered":
				out = append(out, b)
			}
		}
	}
	return out
}

// ---- operations ----------------------------------------------------------------

var wOps = []string{"send", "syncid", "syncupd", "setpin", "setsys", "setsec", "anon"}

type opResult struct {
	op    string
	steps []step
	err   error
	id    string
	msg   message.BankMessage
}

func (w *world) order() message.HBCIMessage {
	acc := domain.AccountConnection{AccountID: "101", CountryCode: 280, BankID: wBank}
	return message.NewHBCIMessage(w.hv, w.hv.TanProcess4Request(segment.IdentificationID), segment.NewAccountInformationRequestSegmentV1(acc, true))
}

func (w *world) run(op string) *opResult {
	w.op = op
	w.anon = op == "anon"
	n := len(w.steps)
	r := &opResult{op: op}
	w.c.Logf("operation %s", op)
	p := engine.Guard(func() {
		switch op {
		case "send":
			r.msg, r.err = w.d.SendMessage(w.order())
		case "syncid":
			r.id, r.err = w.d.SyncClientSystemID()
		case "syncupd":
			r.err = w.d.SyncUserParameterData()
		case "setpin":
			w.d.SetPin(utf8Of(w.ref.texts.pin))
		case "setpin0":
			w.d.SetPin("")
		case "setsys":
			w.d.SetClientSystemID(utf8Of(w.ref.texts.ownSys))
		case "setsec":
			w.d.SetSecurityFunction(w.ref.texts.ownSec)
		case "anon":
			r.msg, r.err = w.d.SendAnonymousMessage(message.NewHBCIMessage(w.hv, segment.NewCommunicationAccessRequestSegment(domain.BankID{CountryCode: 280, ID: "1"}, domain.BankID{CountryCode: 280, ID: "2"}, 5, "")))
		}
	})
	r.steps = w.steps[n:]
	if p != "" {
		var last string
		if len(r.steps) > 0 {
			l := r.steps[len(r.steps)-1]
			last = l.x.Kind + "/" + l.a.Name
		}
		w.c.Fail("panic:"+op+":"+last, "operation %s panicked after answer %s: %s", op, last, p)
	}
	w.c.Logf("  -> err=%v", r.err)
	return r
}

// ---- the reference fold ----------------------------------------------------------

// apply updates the reference state with the answer to a request of the given
// kind. It returns whether the exchange went well.
func (r *ref) apply(kind string, s step) bool {
	a := s.a
	if a.Fault {
		// an answer that opened a dialog but is unusable otherwise still names it
		if a.Raw == nil && (kind == "sync" || kind == "init") {
			r.dialogID = a.Dialog
		}
		return false
	}
	if kind == "sync" || kind == "init" {
		r.dialogID = a.Dialog
	}
	if a.isErr() {
		return false
	}
	if kind == "sync" || kind == "init" {
		if !s.anon {
			if al, ok := a.allowed(); ok {
				r.sec = al
			}
		}
		if kind == "sync" && a.SysID != "" {
			r.sysID = a.SysID
		}
		if a.BPD > 0 {
			r.bpd, r.bankName, r.params = a.BPD, a.Name1, nil
			r.params = append(r.params, a.Params...)
			if len(a.Tans) > 0 {
				r.params = append(r.params, segment.VersionedSegment{ID: "HITANS", Version: 6})
			}
			r.pins = nil
			if a.Pins != nil {
				r.params = append(r.params, segment.VersionedSegment{ID: "HIPINS", Version: 1})
				r.pins = map[string]bool{}
				for i := 0; i < len(a.Pins); i += 2 {
					r.pins[a.Pins[i]] = a.Pins[i+1] == "J"
				}
			}
		}
		if a.HasUPD {
			r.upd = a.UPD
			r.clientID = a.User
			r.accts = append([]string(nil), a.Accts...)
		}
	}
	return true
}

// user applies a local operation.
func (r *ref) user(op string) bool {
	switch op {
	case "setpin":
		r.pin = r.texts.pin
	case "setpin0":
		r.pin = ""
	case "setsys":
		r.sysID = r.texts.ownSys
	case "setsec":
		r.sec = map[string]bool{r.texts.ownSec: true}
	default:
		return false
	}
	return true
}

// ---- monitors --------------------------------------------------------------------

type aspects struct {
	numbering, lifecycle, identity, outcome, params bool
}

// judge folds the operation's exchanges into the reference state and compares.
func (w *world) judge(r *opResult, as aspects) {
	c := w.c
	if w.ref.user(r.op) {
		return
	}
	kinds := []string{}
	var errAcks []ackc
	bad := false
	dlg := ""
	for i, s := range r.steps {
		if s.x.Msg == nil {
			c.Fail("unparseable-request", "request %d is not a well-formed HBCI message: %v: %q", i, s.x.Err, s.x.Raw)
		}
		m := s.x.Msg
		k := s.x.Kind
		kinds = append(kinds, k)
		if as.numbering {
			w.numbering(k, m)
		}
		if k == "sync" || k == "init" {
			w.ref.dialogID, w.ref.num = "0", 0
		}
		if k == "init" && !w.offeredSet {
			w.offered, w.offeredSet = append([]segment.VersionedSegment(nil), w.ref.params...), true
		}
		w.ref.num++
		if as.identity {
			w.identity(k, m, s)
		}
		if as.params {
			w.announced(k, m, s)
		}
		ok := w.ref.apply(k, s)
		if k == "sync" || k == "init" {
			dlg = k
		}
		if !ok {
			// the end of the dialog that carried the order does not decide about
			// the order; the end of a synchronisation dialog does count
			ignored := k == "end" && dlg == "init"
			if !ignored {
				bad = true
				for _, a := range s.a.Acks {
					if a.Code >= 9000 && !s.a.Fault {
						errAcks = append(errAcks, a)
					}
				}
			}
		}
		c.State(w.ref.key())
	}
	if as.lifecycle {
		w.lifecycle(r, kinds)
	}
	if as.outcome {
		w.outcome(r, bad, errAcks)
	}
	if as.params && w.d != nil {
		w.state(r)
	}
	c.Validated()
}

func (w *world) numbering(k string, m *wire.Message) {
	c := w.c
	r := &w.ref
	wantID, wantNum := r.dialogID, r.num+1
	if k == "sync" || k == "init" {
		wantID, wantNum = "0", 1
	}
	if m.DialogID != wantID {
		c.Fail("dialog-id:"+k, "%s message names dialog %q, expected %q", k, m.DialogID, wantID)
	}
	if m.Number != wantNum {
		c.Fail("msg-number:"+k, "%s message carries number %d, expected %d", k, m.Number, wantNum)
	}
	if m.End.E(1, 0) != strconv.Itoa(wantNum) {
		c.Fail("trailer-number:"+k, "%s message trailer carries number %q, expected %d", k, m.End.E(1, 0), wantNum)
	}
	if k == "end" {
		if got := m.Find("HKEND").E(1, 0); got != wantID {
			c.Fail("end-id", "dialog end names dialog %q, the current one is %q", got, wantID)
		}
	}
}

// lifecycle: the sequence of messages must follow from the answers.
func (w *world) lifecycle(r *opResult, kinds []string) {
	c := w.c
	i := 0
	var want []string
	next := func(k string) (bool, bool) { // (answered well, present)
		want = append(want, k)
		if i >= len(kinds) || kinds[i] != k {
			return false, false
		}
		a := r.steps[i].a
		i++
		return !a.Fault && !a.isErr(), true
	}
	ok := true
	mismatch := false
	step := func(k string) bool {
		if mismatch {
			return false
		}
		good, present := next(k)
		if !present {
			mismatch = true
		}
		return good
	}
	sync := func() bool {
		if !step("sync") {
			return false
		}
		return step("end")
	}
	if w.pinBefore() {
		switch r.op {
		case "syncid":
			sync()
		case "send", "syncupd":
			if w.sysBefore == "0" {
				ok = sync()
			}
			if ok && step("init") {
				if r.op == "send" {
					step("order")
				}
				step("end")
			}
		}
	}
	if r.op == "anon" {
		if step("init") {
			step("order")
			step("end")
		}
	}
	if mismatch || i != len(kinds) {
		c.Fail(fmt.Sprintf("lifecycle:%s:want=%s", r.op, want[len(want)-1:]), "operation %s exchanged %v, expected %v", r.op, describe(r.steps), want)
	}
}

func describe(ss []step) string {
	var out []string
	for _, s := range ss {
		out = append(out, s.x.Kind+"("+s.a.Name+")")
	}
	return strings.Join(out, " ")
}

func (w *world) outcome(r *opResult, bad bool, errAcks []ackc) {
	c := w.c
	if !w.pinBefore() && r.op != "anon" {
		if r.err == nil {
			c.Fail("no-pin-success", "%s without a PIN reports success", r.op)
		}
		return
	}
	last := ""
	if n := len(r.steps); n > 0 {
		last = r.steps[n-1].x.Kind + "/" + r.steps[n-1].a.Name
	}
	var names []string
	for _, s := range r.steps {
		if s.a.Name != "ok" {
			names = append(names, s.x.Kind+"/"+s.a.Name)
		}
	}
	if bad && r.err == nil {
		c.Fail("failure-reported-as-success:"+r.op+":"+strings.Join(names, ","), "%s reports success although an exchange failed: %s", r.op, describe(r.steps))
	}
	if !bad && r.err != nil {
		c.Fail("success-reported-as-failure:"+r.op+":"+last, "%s fails with %q although the bank accepted everything: %s", r.op, r.err, describe(r.steps))
	}
	if bad {
		for _, a := range errAcks {
			if !strings.Contains(r.err.Error(), a.Text) || !strings.Contains(r.err.Error(), strconv.Itoa(a.Code)) {
				c.Fail("error-not-named:"+r.op, "the error %q does not name the bank's error %d %q (%s)", r.err, a.Code, a.Text, describe(r.steps))
			}
		}
		return
	}
	switch r.op {
	case "syncid":
		if r.id != utf8Of(w.ref.sysID) {
			c.Fail("sync-result", "synchronisation returned client system ID %q, the bank assigned %q", r.id, w.ref.sysID)
		}
	case "send", "anon":
		if r.msg == nil {
			c.Fail("nil-answer", "%s succeeded without an answer", r.op)
		}
		// the acknowledgements of the order's answer
		for _, s := range r.steps {
			if s.x.Kind != "order" {
				continue
			}
			var want []string
			for _, seg := range []bool{false, true} {
				for _, a := range s.a.Acks {
					if a.Seg == seg {
						want = append(want, fmt.Sprintf("%d %q", a.Code, a.Text))
					}
				}
			}
			var got []string
			for _, a := range r.msg.Acknowledgements() {
				got = append(got, fmt.Sprintf("%d %q", a.Code, a.Text))
			}
			if strings.Join(want, ";") != strings.Join(got, ";") {
				c.Fail("acks-of-answer", "the returned answer carries acknowledgements %v, the bank sent %v", got, want)
			}
		}
	}
}

func (w *world) identity(k string, m *wire.Message, s step) {
	c := w.c
	r := &w.ref
	fail := func(what, format string, a ...any) {
		c.Fail("identity:"+k+":"+what, format, a...)
	}
	if s.anon {
		if m.Encrypted || m.SigHead != nil || m.SigEnd != nil {
			fail("anon-signed", "anonymous message is signed or encrypted: %q", m.Raw)
		}
		if k == "init" {
			id := m.Find("HKIDN")
			if got := id.Group(1) + "+" + id.Group(2) + "+" + id.Group(3) + "+" + id.Group(4); got != "280:"+wBank+"+9999999999+0+0" {
				fail("anon-id", "anonymous identification is %q", got)
			}
		}
		if r.pin != "" && strings.Contains(m.Raw, r.pin) {
			fail("anon-pin", "the PIN is part of an anonymous message: %q", m.Raw)
		}
		return
	}
	if !m.Encrypted {
		fail("plain", "%s message is sent unencrypted: %q", k, m.Raw)
	}
	if m.SigHead == nil || m.SigEnd == nil {
		fail("unsigned", "%s message is not signed: %q", k, m.Payload)
	}
	sys := r.sysID
	if k == "sync" {
		sys = "0"
	}
	if k == "sync" || k == "init" {
		id := m.Find("HKIDN")
		if got := id.Group(1); got != "280:"+wBank {
			fail("bank", "identification names bank %q", got)
		}
		if got := id.Group(2); got != r.clientID {
			fail("customer", "identification names customer %q, expected %q", got, r.clientID)
		}
		if got := id.Group(3); got != sys {
			fail("system", "identification names client system %q, expected %q", got, sys)
		}
		if got := id.Group(4); got != "1" {
			fail("status", "client system status %q", got)
		}
	}
	h := m.SigHead
	o := 0
	if r.version >= 300 {
		o = 1
	}
	sec := h.E(1+o, 0)
	if !r.sec[sec] {
		fail("secfn", "security function %q is used, allowed are %v", sec, keys(r.sec))
	}
	r.sec = map[string]bool{sec: true} // it sticks until the bank or the user changes it
	if r.version >= 300 {
		prof := "PIN:2"
		if sec == "999" {
			prof = "PIN:1"
		}
		if got := m.CryptHead.Group(1); got != prof {
			fail("profile", "encryption header security profile %q with security function %s", got, sec)
		}
		// the signature header always names profile PIN with a version
		if got := h.Group(1); got != prof {
			fail("sigprofile", "signature header security profile %q with security function %s", got, sec)
		}
	}
	ctl := h.E(2+o, 0)
	if ctl == "" || ctl != m.SigEnd.E(1, 0) {
		fail("ctlref", "control reference %q at the begin, %q at the end of the signature", ctl, m.SigEnd.E(1, 0))
	}
	if got := h.Group(5 + o); got != "1::"+sys {
		fail("sigsys", "signature header security identification %q, client system is %q", got, sys)
	}
	key := h.Group(len(h.DE) - 1)
	if key != "280:"+wBank+":"+r.userID+":S:0:0" {
		fail("sigkey", "signature key name %q", key)
	}
	if got := m.SigEnd.Group(3); got != r.pin {
		fail("pin", "signature carries PIN %q, the current one is %q", got, r.pin)
	}
	v := m.CryptHead
	if got := v.Group(3 + o); got != "1::"+sys {
		fail("cryptsys", "encryption header security identification %q, client system is %q", got, sys)
	}
	vk := v.Group(6 + o)
	if vk != "280:"+wBank+":"+r.userID+":V:0:0" {
		fail("cryptkey", "encryption key name %q (%s)", vk, v.Raw)
	}
	outside := strings.Replace(m.Raw, m.Payload, "", 1)
	pin := wire.Esc(r.pin)
	if strings.Contains(outside, pin) || strings.Contains(outside, r.pin) || strings.Contains(outside, utf8Of(r.pin)) {
		fail("pin-outside", "the PIN appears outside the encrypted data: %q", outside)
	}
	if n := strings.Count(m.Payload, pin); n != 1 {
		fail("pin-count", "the PIN appears %d times in the message", n)
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (w *world) announced(k string, m *wire.Message, s step) {
	if k != "sync" && k != "init" {
		return
	}
	v := m.Find("HKVVB")
	if v == nil {
		w.c.Fail("hkvvb", "%s message without processing preparation", k)
	}
	bpd, upd := strconv.Itoa(w.ref.bpd), strconv.Itoa(w.ref.upd)
	if k == "sync" {
		bpd, upd = "0", "0"
	}
	if v.E(1, 0) != bpd || v.E(2, 0) != upd {
		w.c.Fail("announced:"+k, "%s announces BPD %s UPD %s, stored are BPD %s UPD %s", k, v.E(1, 0), v.E(2, 0), bpd, upd)
	}
	if v.E(4, 0) != w.ref.product || v.E(5, 0) != w.ref.prodVer {
		w.c.Fail("product", "%s announces product %q %q", k, v.E(4, 0), v.E(5, 0))
	}
	if v.E(3, 0) == "" {
		w.c.Fail("language", "%s announces no language", k)
	}
}

// state compares the client's stored parameters with what was last delivered.
func (w *world) state(r *opResult) {
	c := w.c
	ref := &w.ref
	if got := w.d.BankParameterData.Version; got != ref.bpd {
		c.Fail("bpd-version", "after %s (%s) the client holds BPD version %d, last delivered %d", r.op, describe(r.steps), got, ref.bpd)
	}
	if got := w.d.BankParameterData.BankName; got != ref.bankName {
		c.Fail("bank-name", "the client holds bank name %q, last delivered %q", got, ref.bankName)
	}
	if got := w.d.UserParameterData.Version; got != ref.upd {
		c.Fail("upd-version", "after %s (%s) the client holds UPD version %d, last delivered %d", r.op, describe(r.steps), got, ref.upd)
	}
	var have []string
	for _, s := range w.d.SupportedSegments() {
		have = append(have, fmt.Sprintf("%s:%d", s.ID, s.Version))
	}
	for _, p := range ref.params {
		if !contains(have, fmt.Sprintf("%s:%d", p.ID, p.Version)) {
			c.Fail("supported-missing", "the bank announced %v, the client holds %v", ref.params, have)
		}
	}
	for _, h := range have {
		found := false
		for _, p := range ref.params {
			if h == fmt.Sprintf("%s:%d", p.ID, p.Version) {
				found = true
			}
		}
		if !found {
			c.Fail("supported-extra", "the client believes %s is supported, the bank announced %v", h, ref.params)
		}
	}
	b := w.d.BankParameterData
	if got, want := fmt.Sprint(b.PinTanBusinessTransactions), fmt.Sprint(ref.pins); got != want {
		c.Fail("pin-tan-jobs", "after %s (%s) the client holds the PIN/TAN jobs %s, last delivered %s", r.op, describe(r.steps), got, want)
	}
	if ref.bpd > 0 && (b.BankID != domain.BankID{CountryCode: 280, ID: wBank} || b.MaxTransactionsPerMessage != 3+ref.bpd%7 || b.MaxMessageSize != ref.bpd*10) {
		c.Fail("bpd-values", "the client holds the bank parameters %+v, delivered with version %d", b.BankParameterData, ref.bpd)
	}
	if len(b.SupportedSegmentParameters) != len(have) {
		c.Fail("segment-parameters", "%d segment parameters for the segments %v", len(b.SupportedSegmentParameters), have)
	}
	for i, p := range b.SupportedSegmentParameters {
		if fmt.Sprintf("%s:%d", p.ID, p.Version) != have[i] {
			c.Fail("segment-parameters", "parameters of %s:%d are listed for %s", p.ID, p.Version, have[i])
		}
		if p.Parameters != nil && (p.Parameters.Header().ID.Val() != p.ID || p.Parameters.Header().Version.Val() != p.Version) {
			c.Fail("segment-parameters", "the parameters of %s are those of %v", have[i], p.Parameters.Header())
		}
		if (have[i] == "HITANS:6" || have[i] == "HIPINS:1") && p.Parameters == nil {
			c.Fail("segment-parameters-missing", "no parameters for %s", have[i])
		}
	}
	var accts []string
	for _, a := range w.d.Accounts {
		accts = append(accts, a.AccountConnection.AccountID)
	}
	if strings.Join(accts, ",") != strings.Join(ref.accts, ",") {
		c.Fail("accounts", "after %s (%s) the client holds accounts %v, last delivered %v", r.op, describe(r.steps), accts, ref.accts)
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- the explored spaces -----------------------------------------------------------

func (w *world) pinBefore() bool { return w.ref.pin != "" }

func (w *world) do(op string, as aspects) {
	w.sysBefore = w.ref.sysID
	w.judge(w.run(op), as)
}

// ackMenu composes the acknowledgements of one exchange freely; the others are
// regular.
func ackMenu(at int) func(w *world, kind string, m *wire.Message) []*ans {
	return func(w *world, kind string, m *wire.Message) []*ans {
		a := w.base(kind, m)
		if len(w.steps) != at {
			return []*ans{a}
		}
		c := w.c
		n := 0
		add := func(b *ans, code int, seg bool, ref int) {
			if code > 0 {
				n++
				b.Acks = append(b.Acks, ackc{Code: code, Text: fmt.Sprintf("Text %d", n), Seg: seg, Ref: ref})
			}
		}
		b := clone(a, "composed")
		b.Acks = nil
		add(b, engine.Of(c, "rmg1", 10, 20, 1, 3060, 8999), false, 0)
		add(b, engine.Of(c, "rmg2", 0, 20, 9050), false, 0)
		add(b, engine.Of(c, "rms1a", 0, 20, 3010, 9210, 8999), true, 3)
		if b.Acks[len(b.Acks)-1].Seg {
			add(b, engine.Of(c, "rms1b", 0, 20, 9391), true, 3)
			add(b, engine.Of(c, "rms2", 0, 100, 9931), true, 4)
			b.Late = c.Bool("late")
		}
		if b.isErr() {
			e := errAns(a, "composed", b.Acks...)
			e.Late = b.Late
			b = e
		}
		return []*ans{b}
	}
}

func worldSpaces(r *engine.Runner, as aspects) {
	if as.outcome {
		r.Explore("acknowledgements", "HBCI 2.2 and FinTS 3.0; each operation alone; at each of its exchanges every combination of up to two message acknowledgements and two segment acknowledgement segments with codes of every class, in both orders", 0, func(c *engine.Ctx) {
			v := engine.Of(c, "version", 220, 300)
			op := engine.Of(c, "op", "send", "syncid", "anon")
			at := c.Choose(map[string]int{"send": 2, "syncid": 2, "anon": 2}[op], "exchange")
			w := newWorld(c, v, ackMenu(at))
			w.do("setpin", as)
			if op == "send" {
				w.do("setsys", as)
			}
			w.do(op, as)
		})
	}
	seqs := func(name string, ops []string, depth, devs int, menu func(w *world, kind string, m *wire.Message) []*ans, setup ...string) {
		r.Explore(name, fmt.Sprintf("HBCI 2.2 and FinTS 3.0; all sequences of %d operations from %v after %v; every bank answer from the menu with at most %d deviations from the regular answer", depth, ops, setup, devs), devs, func(c *engine.Ctx) {
			v := engine.Of(c, "version", 220, 300)
			w := newWorld(c, v, menu)
			for _, s := range setup {
				w.do(s, as)
			}
			for i := 0; i < depth; i++ {
				w.do(ops[c.Choose(len(ops), fmt.Sprintf("op%d", i))], as)
			}
		})
	}
	net := []string{"send", "syncid", "syncupd", "anon"}
	seqs("depth1-full-menu", append(append([]string{}, wOps...), "setpin0"), 1, 2, fullMenu, "setpin")
	seqs("depth2-full-menu", net, 2, 1, fullMenu, "setpin")
	seqs("nopin", wOps, 2, 0, fullMenu)
	seqs("depth3-local-ops", wOps, 3, 1, smallMenu, "setpin")
	rounds := r.Pick(5, 20)
	patterns := [][]string{{"send"}, {"anon"}, {"syncid"}, {"syncupd"}, {"send", "anon"}, {"syncid", "send"}, {"anon", "syncupd"}}
	r.Explore("long histories", fmt.Sprintf("HBCI 2.2 and FinTS 3.0; each of %v repeated, %d operations, the bank's parameters getting another version after one of them; every bank answer from the menu with at most 1 deviation from the regular answer", patterns, 2*rounds), 1, func(c *engine.Ctx) {
		v := engine.Of(c, "version", 220, 300)
		pat := patterns[c.Choose(len(patterns), "pattern")]
		change := c.Choose(3, "parameters change")
		w := newWorld(c, v, smallMenu)
		w.do("setpin", as)
		for i := 0; i < 2*rounds; i++ {
			if change > 0 && i == []int{0, 2, rounds}[change] {
				w.banksV, w.banksU = w.banksV+1, w.banksU+1
			}
			w.do(pat[i%len(pat)], as)
		}
	})
	if as.params || as.outcome {
		many := r.Pick(130, 1100)
		r.Explore("counts", fmt.Sprintf("HBCI 2.2 and FinTS 3.0; every version of the bank's and of the user's parameters up to 999, every number of announced job versions, PIN/TAN jobs and accounts up to %d, every number of acknowledgements up to 100 with one error or all of them errors", many), 0, func(c *engine.Ctx) {
			v := engine.Of(c, "version", 220, 300)
			what := engine.Of(c, "what", "bpd", "upd", "jobs", "pins", "accounts", "acks", "errors", "segments")
			n := 0
			switch what {
			case "bpd", "upd":
				n = 1 + c.Choose(999, "count")
			case "acks", "errors", "segments":
				n = 1 + c.Choose(100, "count")
			default:
				n = c.Choose(many+1, "count")
			}
			op := engine.Of(c, "op", "send", "syncid", "syncupd", "anon")
			at := 0
			if (what == "acks" || what == "errors" || what == "segments") && (op == "send" || op == "anon") {
				at = c.Choose(2, "exchange")
			}
			w := newWorld(c, v, func(w *world, kind string, m *wire.Message) []*ans {
				a := w.base(kind, m)
				name := func(p string, i int) string { return fmt.Sprintf("%s%c%c%c", p, 'A'+i/676%26, 'A'+i/26%26, 'A'+i%26) }
				if a.BPD > 0 {
					a = clone(a, "many")
					switch what {
					case "jobs":
						a.Params = nil
						for i := 0; i < n; i++ {
							a.Params = append(a.Params, segment.VersionedSegment{ID: name("HI", i/3) + "S", Version: 1 + i%12})
						}
					case "pins":
						a.Pins = []string{}
						for i := 0; i < n; i++ {
							a.Pins = append(a.Pins, name("HK", i), []string{"J", "N"}[i%2])
						}
						if n == 0 {
							a.Pins = nil
						}
					}
				}
				if a.HasUPD && what == "accounts" {
					a = clone(a, "many")
					a.Accts = nil
					for i := 0; i < n; i++ {
						a.Accts = append(a.Accts, strconv.Itoa(1000+i))
					}
				}
				first := map[string]string{"send": "init", "syncid": "sync", "syncupd": "init", "anon": "init"}[op]
				if at == 1 {
					first = "order"
				}
				if what != "acks" && what != "errors" && what != "segments" || kind != first || w.op != op {
					return []*ans{a}
				}
				var acks []ackc
				for i := 0; i < n; i++ {
					k := ackc{Code: 20, Text: fmt.Sprintf("Text %d", i), Seg: true, Ref: 3}
					if what == "segments" {
						k.Ref = 2 + i
					}
					if what == "errors" || i == n-1 {
						k.Code = 9010 + i
					}
					acks = append(acks, k)
				}
				return []*ans{errAns(a, "many", acks...)}
			})
			switch what {
			case "bpd":
				w.banksV = n
			case "upd":
				w.banksU = n
			}
			w.do("setpin", as)
			if what != "jobs" && what != "pins" {
				w.do("setsys", as)
			}
			w.do(op, as)
			if what != "acks" && what != "errors" && what != "segments" {
				w.do("send", as)
			}
		})
	}
	if as.numbering || as.identity {
		most := r.Pick(64, 300)
		r.Explore("every text", fmt.Sprintf("HBCI 2.2 and FinTS 3.0; an operation and an order after it with a dialog identifier, assigned or own system identifier, user, customer or PIN of every length up to %d, and with every character of the character set alone and at either end, and with every security function from 900 to 998, the bank's or the user's", most), 0, func(c *engine.Ctx) {
			v := engine.Of(c, "version", 220, 300)
			whats := []string{"dialog", "system", "own system", "user", "customer", "pin", "function", "own function"}
			if !as.identity {
				whats = whats[:1]
			}
			what := engine.Of(c, "what", whats...)
			text, fn := "", ""
			if strings.HasSuffix(what, "function") {
				fn = strconv.Itoa(900 + c.Choose(99, "function"))
			} else {
				switch how := c.Choose(6, "how"); how {
				case 0, 1:
					l := "PQRSTUVWXYZJKLMNOpqrstuvwxyzjklmno"
					if how == 1 {
						l = "00224466880013579"
					}
					for n := 1 + c.Choose(most, "length"); n > 0; n-- {
						text += l[n%len(l) : n%len(l)+1]
					}
				default:
					k := c.Choose(95+96, "character")
					b := byte(' ' + k)
					if k >= 95 {
						b = byte(0xa0 + k - 95)
					}
					text = []string{string([]byte{b}), "J" + string([]byte{b}), string([]byte{b}) + "J", "J" + string([]byte{b, b}) + "K"}[how-2]
				}
			}
			var t worldTexts
			switch what {
			case "dialog":
				t.dialog = text
			case "system":
				t.sys = text
			case "own system":
				t.ownSys = text
			case "user":
				t.user = text
			case "customer":
				t.customer = text
			case "pin":
				if len(text) < 5 {
					text = "Q" + text + "QXQ" // nothing else in a message looks like this
				}
				t.pin = text
			case "own function":
				t.ownSec = fn
			}
			if what == "system" && text == "0" || what == "own system" && text == "0" {
				c.Stop() // means: none
			}
			w := newWorldOf(c, v, func(w *world, kind string, m *wire.Message) []*ans {
				a := w.base(kind, m)
				if what == "function" && (kind == "sync" || kind == "init") && !w.anon {
					a = clone(a, "function")
					a.Acks = append(a.Acks, ackc{Code: 3920, Text: "Zugelassene Verfahren", Params: []string{fn}, Seg: true, Ref: 5})
					a.Tans = []string{"901", fn}
				}
				return []*ans{a}
			}, t)
			w.do("setpin", as)
			if strings.HasPrefix(what, "own ") {
				w.do(map[string]string{"own system": "setsys", "own function": "setsec"}[what], as)
			}
			w.do(engine.Of(c, "op", "syncid", "anon"), as)
			w.do("send", as)
		})
	}
	if !as.outcome {
		worldClientSpaces(r, as)
	}
	if r.Thorough() {
		seqs("depth1-three-deviations", []string{"send", "syncupd"}, 1, 3, smallMenu, "setpin")
		seqs("depth2-two-deviations", net, 2, 2, smallMenu, "setpin")
		seqs("depth3-two-deviations", []string{"send", "syncid", "anon"}, 3, 2, smallMenu, "setpin")
		seqs("depth4-local-ops", wOps, 4, 1, smallMenu, "setpin")
	}
}

// everyCode has the bank answer with every code there may be.
func everyCode(r *engine.Runner, as aspects) {
	r.Explore("every code", "every code from 0 to 9999, with a text of its own, for the message or for a segment, alone or after a success, in the answer to the opening, the order or the synchronisation", 0, func(c *engine.Ctx) {
		at := engine.Of(c, "exchange", "init", "order", "sync")
		seg := c.Bool("segment")
		alone := seg || c.Bool("alone")
		code := 100*c.Choose(100, "class") + c.Choose(100, "code")
		w := newWorld(c, 300, func(w *world, kind string, m *wire.Message) []*ans {
			a := w.base(kind, m)
			if kind != at {
				return []*ans{a}
			}
			k := ackc{Code: code, Text: fmt.Sprintf("Rueckmeldung %d", 2*code), Seg: seg, Ref: 3}
			if code >= 9000 {
				if a = errAns(a, "code", okAck(), k); alone && !seg {
					a.Acks = a.Acks[1:]
				}
				return []*ans{a}
			}
			a = clone(a, "code")
			if alone && !seg {
				a.Acks = a.Acks[1:]
			}
			a.Acks = append(a.Acks, k)
			return []*ans{a}
		})
		w.do("setpin", as)
		if at == "sync" {
			w.do("syncid", as)
			return
		}
		w.do("setsys", as)
		w.do("send", as)
	})
}
