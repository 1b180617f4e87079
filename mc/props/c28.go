package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// C28: the command line program. The real program runs as a process of its own
// with a home directory of its own against a scripted bank on the loopback
// interface, which is also the only way out of it.

// call28 is a request of the program that waits for its answer.
type call28 struct {
	w    http.ResponseWriter
	req  *http.Request
	body []byte
	done chan struct{}
}

type server28 struct {
	once sync.Once
	addr string
	tool string
	dir  string
	next int64
	runs sync.Map // id -> chan *call28
}

var srv28 server28

// start builds the program and opens the bank's door.
func (s *server28) start() {
	s.once.Do(func() {
		s.dir, s.tool = toolDir(), tool("./cmd/banking")
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		s.addr = ln.Addr().String()
		h := &http.Server{Handler: http.HandlerFunc(s.serve)}
		h.SetKeepAlivesEnabled(false)
		go h.Serve(ln)
	})
}

func (s *server28) serve(w http.ResponseWriter, req *http.Request) {
	id := strings.Trim(req.URL.Path, "/")
	if a := strings.TrimPrefix(req.Header.Get("Proxy-Authorization"), "Basic "); a != "" {
		b, _ := base64.StdEncoding.DecodeString(a)
		id = strings.SplitN(string(b), ":", 2)[0]
	}
	ch, ok := s.runs.Load(id)
	if !ok {
		http.Error(w, "gone", http.StatusGone)
		return
	}
	body, _ := io.ReadAll(req.Body)
	x := &call28{w: w, req: req, body: body, done: make(chan struct{})}
	select {
	case ch.(chan *call28) <- x:
		<-x.done
	case <-time.After(60 * time.Second):
	}
}

// proc28 is what became of a run of the program.
type proc28 struct {
	code     int
	out, err string
	calls    int
}

// run28 runs the program; every request is handed to answer, by the exploring
// goroutine itself.
func run28(home string, env, args []string, answer func(x *call28)) proc28 {
	s := &srv28
	id := home[strings.LastIndexByte(home, '/')+1:]
	ch := make(chan *call28)
	s.runs.Store(id, ch)
	defer s.runs.Delete(id)
	proxy := "http://" + id + ":x@" + s.addr
	cmd := exec.Command(s.tool, args...)
	cmd.Dir = home
	cmd.Env = append([]string{"HOME=" + home, "TZ=UTC", "HTTPS_PROXY=" + proxy, "HTTP_PROXY=" + proxy}, env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	finished := false
	defer func() {
		if !finished {
			cmd.Process.Kill()
			<-ended
		}
	}()
	p := proc28{}
	for {
		select {
		case x := <-ch:
			p.calls++
			func() {
				defer close(x.done)
				answer(x)
			}()
		case <-ended:
			finished = true
			p.code, p.out, p.err = cmd.ProcessState.ExitCode(), out.String(), errb.String()
			return p
		}
	}
}

func (s *server28) url(home string) string {
	return "http://" + s.addr + home[strings.LastIndexByte(home, '/'):]
}

// home28 makes a home directory and a function that removes it.
func home28() (string, func()) {
	dir := filepath.Join(srv28.dir, fmt.Sprintf("home%d", atomic.AddInt64(&srv28.next, 1)))
	if err := os.Mkdir(dir, 0o755); err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

const pin28 = "s3cr3tPIN"

// use28 is one use of the program against the scripted bank.
type use28 struct {
	w       *cworld
	home    string
	env     []string
	args    []string
	verdict func(kind string) verdict04
	failed  string
	named   []string
	said    string
	opening string
}

// run runs the program once.
func (u *use28) run() proc28 {
	w := u.w
	var verdict verdict04
	w.tamper = func(kind string, body []string) []string {
		if verdict.acks != nil {
			return verdict.acks
		}
		return append(body[:len(body):len(body)], verdict.more...)
	}
	inner := w.bank.Answer
	w.bank.Answer = func(x *bank.Exchange, n int) bank.Reply {
		if x.Msg == nil {
			return inner(x, n)
		}
		verdict = verdict04{}
		if u.verdict != nil {
			verdict = u.verdict(x.Kind)
		}
		rep := inner(x, n)
		switch {
		case verdict.reply != nil:
			rep = verdict.reply(rep.Text)
		case verdict.plain && rep.Err == nil:
			rep.Text = wire.Plain(w.version, x.Msg.DialogID, x.Msg.Number, x.Msg.Number, strings.Join(verdict.acks, ""))
		}
		if x.Kind == "sync" || x.Kind == "init" {
			u.opening = x.Kind
		}
		if verdict.name != "" && verdict.name != "usual" {
			u.said += " " + x.Kind + ":" + verdict.name
		}
		if verdict.named != nil && !(x.Kind == "end" && u.opening != "sync") {
			u.failed += " " + x.Kind + ":" + verdict.name
			if verdict.reply == nil {
				u.named = append(u.named, verdict.named...)
			}
		}
		return rep
	}
	defer func() { w.bank.Answer = inner }()
	p := run28(u.home, u.env, u.args, func(x *call28) {
		if x.req.Method != http.MethodPost {
			w.bad = x.req.Method + " " + x.req.URL.String()
		}
		resp, err := w.bank.Do(&transport.Request{URL: x.req.URL.String(), Body: io.NopCloser(bytes.NewReader(x.body))})
		if err == nil {
			var body []byte
			body, err = io.ReadAll(resp.Body)
			if err == nil {
				if note := w.bank.Log[len(w.bank.Log)-1].Reply.Note; note != "" {
					var status int
					fmt.Sscan(note, &status)
					x.w.WriteHeader(status)
				}
				x.w.Write(body)
				return
			}
			x.w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
			x.w.Write(body)
		}
		if hj, ok := x.w.(http.Hijacker); ok {
			if conn, _, err := hj.Hijack(); err == nil {
				conn.Close()
			}
		}
	})
	w.c.Logf("banking %q: exit %d\n%s%s", u.args, p.code, p.out, p.err)
	if w.bad != "" {
		w.c.Fail("unparseable", "banking %q sends %q", u.args, w.bad)
	}
	return p
}

// secret28 looks for the PIN where it must not be.
func secret28(c *engine.Ctx, home string, p proc28) {
	if strings.Contains(p.out, pin28) || strings.Contains(p.err, pin28) {
		c.Fail("pin-printed", "the PIN is printed:\n%s%s", p.out, p.err)
	}
	filepath.Walk(home, func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			if b, err := os.ReadFile(path); err == nil && bytes.Contains(b, []byte(pin28)) {
				c.Fail("pin-kept", "the PIN is written to %s:\n%s", filepath.Base(path), b)
			}
		}
		return nil
	})
}

// refused28 requires a refusal that says something.
func refused28(c *engine.Ctx, what string, p proc28, named ...string) {
	if p.code == 0 {
		c.Fail("refusal-as-success", "%s: exit status 0:\n%s%s", what, p.out, p.err)
	}
	if p.code < 0 || strings.Contains(p.err, "goroutine ") {
		c.Fail("crash", "%s: the program crashes (%d):\n%s%s", what, p.code, p.out, p.err)
	}
	if strings.TrimSpace(p.out+p.err) == "" {
		c.Fail("silent", "%s: exit status %d without any message", what, p.code)
	}
	for _, n := range named {
		if !strings.Contains(p.out+p.err, n) {
			c.Fail("not-named", "%s: %q is not named:\n%s%s", what, n, p.out, p.err)
		}
	}
	for _, t := range []string{"BookingDate", "ProductID"} {
		if strings.Contains(p.out, t) {
			c.Fail("table-of-failure", "%s: a table is printed:\n%s", what, p.out)
		}
	}
}

// printed28 cuts the table out of what was printed.
func printed28(c *engine.Ctx, p proc28, title string, rows [][]string, titles []string, after int) {
	out := strings.TrimRight(p.out, "\n")
	lines := strings.Split(out, "\n")
	at := -1
	for i, l := range lines {
		if strings.HasPrefix(strings.TrimLeft(l, " "), title) {
			at = i
			break
		}
	}
	if at < 0 {
		c.Fail("no-table", "exit status 0 without a table:\n%s%s", p.out, p.err)
	}
	lines = lines[at:]
	for i := range lines {
		lines[i] = expand26(lines[i])
	}
	if after > len(lines) {
		after = len(lines)
	}
	table26(c, p.out, lines[:len(lines)-after], titles, rows)
}

func order28(m *wire.Message, id string) string {
	s := m.Find(id)
	if s == nil {
		return "no " + id
	}
	return without(s)
}

func init() { engine.Register("C28", c28) }

func c28(r *engine.Runner) {
	srv28.start()
	table := bankTable()
	banks := map[int][]string{} // version -> bank codes
	var ids []string
	for id, es := range table {
		v := verNum[es[len(es)-1].VersionNumber]
		if x := verName[es[len(es)-1].VersionName]; x > v {
			v = x
		}
		banks[v] = append(banks[v], id)
		ids = append(ids, id)
	}
	for _, l := range banks {
		sort.Strings(l)
	}
	sort.Strings(ids)
	bankFor := func(version, n int) string {
		if l := banks[version]; n < len(l) {
			return l[n]
		}
		return ""
	}
	versions := []int{}
	for _, v := range []int{220, 300} {
		if len(banks[v]) >= 3 {
			versions = append(versions, v)
		}
	}
	if len(versions) == 0 {
		versions, banks[300] = []int{300}, []string{"10010010", "10020200", "10020890"}
	}
	params := []string{bank.Param("HISALS", 5), bank.Param("HISALS", 7), bank.Param("HIKAZS", 6), bank.Param("HIKAZS", 7)}
	world := func(c *engine.Ctx, version int) *cworld {
		w := &cworld{c: c, version: version, params: params, bank: &bank.Bank{}}
		w.bank.Answer = w.answer
		w.onOrder = func(m *wire.Message, n int) ([]string, *bank.Reply) {
			return []string{bank.RMG(bank.Ack(9000, "kein Auftrag erwartet"))}, nil
		}
		return w
	}

	// ---- where the settings come from ----
	sources := func(c *engine.Ctx, key string, vals [3]string) (flag, env, file string) {
		k := c.Choose(8, key+" in flag, environment, file")
		if k&1 != 0 {
			flag = vals[0]
		}
		if k&2 != 0 {
			env = vals[1]
		}
		if k&4 != 0 {
			file = vals[2]
		}
		return
	}
	first := func(vs ...string) string {
		for _, v := range vs {
			if v != "" {
				return v
			}
		}
		return ""
	}
	asks := func(c *engine.Ctx, w *cworld, user, blz string) {
		for _, x := range w.bank.Log {
			m := x.Msg
			if id := m.Find("HKIDN"); id != nil {
				if id.E(1, 1) != blz || id.E(2, 0) != user && id.E(2, 0) != "KND" {
					c.Fail("wrong-identity", "a dialog of bank %s and user %s is opened instead of bank %s and user %s", id.E(1, 1), id.E(2, 0), blz, user)
				}
			}
			if s := m.SigEnd; s == nil || s.E(3, 0) != pin28 {
				c.Fail("wrong-pin", "a request is not signed with the PIN given: %q", x.Raw)
			}
			if m.Version != w.version {
				c.Fail("wrong-protocol", "a request to a bank of version %d: %q", w.version, x.Raw)
			}
		}
		if len(w.bank.Log) > 0 && w.bank.Log[0].Msg.Find("HKIDN").E(2, 0) != user {
			c.Fail("wrong-identity", "the first dialog is opened for user %s, not %s", w.bank.Log[0].Msg.Find("HKIDN").E(2, 0), user)
		}
	}
	r.Explore("settings", "user and bank code each from the command line, the environment, a settings file or several of them; a settings file in the home directory, elsewhere, in other forms, damaged, or missing; and a second use with other or no settings", 0, func(c *engine.Ctx) {
		version := versions[len(versions)-1]
		uf, ue, us := sources(c, "user", [3]string{"1111", "2222", "3333"})
		bf, be, bs := sources(c, "bank", [3]string{bankFor(version, 0), bankFor(version, 1), bankFor(version, 2)})
		form := engine.Of(c, "file", "none", "home", "given", "json", "damaged", "given damaged", "missing")
		text := ""
		switch {
		case (us != "" || bs != "") && form == "none":
			return
		case form == "none" || form == "missing":
		default:
			if us == "" && bs == "" && strings.HasSuffix(form, "damaged") == false {
				text = "colour: blue\n"
			}
			if us != "" {
				text += "userID: \"" + us + "\"\n"
			}
			if bs != "" {
				text += "blz: \"" + bs + "\"\n"
			}
			if form == "json" {
				text = `{"colour": "blue", "userID": "` + us + `", "blz": "` + bs + `"}`
			}
			if strings.HasSuffix(form, "damaged") {
				text += "]: [damaged\n\t}"
			}
		}
		home, remove := home28()
		defer remove()
		path := filepath.Join(home, ".banking.yaml")
		var args, env []string
		switch form {
		case "given", "given damaged", "missing":
			path = filepath.Join(home, "settings.yaml")
			args = append(args, "--config", path)
		case "json":
			path = filepath.Join(home, "settings.json")
			args = append(args, "--config", path)
		}
		own := filepath.Join(home, ".banking.yaml") // the user's usual settings
		ownText := ""
		if path != own {
			ownText = "userID: \"4444\"\nblz: \"" + bankFor(version, 2) + "\"\n"
			if err := os.WriteFile(own, []byte(ownText), 0o600); err != nil {
				panic(err)
			}
		}
		if text != "" {
			if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
				panic(err)
			}
		}
		if ue != "" {
			env = append(env, "USERID="+ue)
		}
		if be != "" {
			env = append(env, "BLZ="+be)
		}
		if uf != "" {
			args = append(args, "--userID", uf)
		}
		if bf != "" {
			args = append(args, "--blz="+bf)
		}
		user, blz := first(uf, ue, us), first(bf, be, bs)
		w := world(c, version)
		u := &use28{w: w, home: home, env: env, args: append(append([]string{"accounts", "--pin", pin28}, args...), "--hbci.url", srv28.url(home))}
		p := u.run()
		what := fmt.Sprintf("banking %s with the environment %v and the settings %q (%s)", strings.Join(u.args, " "), env, text, form)
		c.State(fmt.Sprint(uf, ue, us, bf, be, bs, form))
		c.Validated()
		unchanged := func() {
			if b, _ := os.ReadFile(path); text != "" && string(b) != text {
				c.Fail("settings-overwritten", "%s: the settings file is now %q", what, b)
			}
			if b, _ := os.ReadFile(own); ownText != "" && string(b) != ownText {
				c.Fail("settings-overwritten", "%s: the usual settings file is now %q", what, b)
			}
			secret28(c, home, p)
		}
		unchanged()
		if form == "missing" || strings.HasSuffix(form, "damaged") {
			refused28(c, what, p)
			if p.calls > 0 {
				c.Fail("requests", "%s: %d requests although the settings cannot be read", what, p.calls)
			}
			return
		}
		if user == "" || blz == "" {
			var named []string
			if user == "" {
				named = append(named, "userID")
			}
			if blz == "" {
				named = append(named, "blz")
			}
			refused28(c, what, p, named...)
			if p.calls > 0 {
				c.Fail("requests", "%s: %d requests without user or bank", what, p.calls)
			}
		} else {
			if p.code != 0 {
				c.Fail("refused", "%s: exit status %d:\n%s%s", what, p.code, p.out, p.err)
			}
			asks(c, w, user, blz)
			if len(w.bank.Log) == 0 {
				c.Fail("no-requests", "%s: nothing is asked", what)
			}
			titles := []string{"BankID", "AccountID", "UserID", "Currency", "Name", "ProductID", "Limit"}
			var rows [][]string
			for _, a := range []string{"101", "102"} {
				rows = append(rows, []string{wBank, a, "KND", "EUR", "Muster, Max", "", "-"})
			}
			printed28(c, p, "BankID", limits26(rows, titles), titles, 0)
		}
		// a second use in the same home: what was kept or stood in the file
		// takes the place of what is not given
		if form != "none" && form != "home" {
			return
		}
		if form == "none" {
			us, bs = user, blz
		}
		var args2 []string
		user2, blz2 := us, bs
		switch c.Choose(3, "second use") {
		case 1:
			user2 = "5555"
			args2 = append(args2, "--userID", user2)
		case 2:
			user2, blz2 = "6666", bankFor(version, 1)
			args2 = append(args2, "--userID", user2, "--blz", blz2)
		}
		kept, _ := os.ReadFile(own)
		w2 := world(c, version)
		u2 := &use28{w: w2, home: home, args: append(append([]string{"accounts", "--pin", pin28}, args2...), "--hbci.url", srv28.url(home))}
		p2 := u2.run()
		what = fmt.Sprintf("after %s, banking %s", what, strings.Join(u2.args, " "))
		secret28(c, home, p2)
		if b, _ := os.ReadFile(own); !bytes.Equal(b, kept) {
			c.Fail("settings-overwritten", "%s: the settings file was %q and is now %q", what, kept, b)
		}
		if user2 == "" || blz2 == "" {
			refused28(c, what, p2)
			return
		}
		if p2.code != 0 {
			c.Fail("refused", "%s: exit status %d:\n%s%s", what, p2.code, p2.out, p2.err)
		}
		asks(c, w2, user2, blz2)
	})

	// ---- what is asked and printed ----
	type command struct {
		name  string
		args  []string
		op    *cop
		sepa  bool
		title string
	}
	co := cops()
	commands := []command{
		{"balances", []string{"balances"}, co[1], true, "Product Name"},
		{"balances without SEPA", []string{"balances", "--disableSepa"}, co[0], false, "Product Name"},
		{"transactions", []string{"transactions"}, co[3], true, "BookingDate"},
		{"transactions without SEPA", []string{"transactions", "--disableSepa"}, co[2], false, "BookingDate"},
	}
	accounts := []string{"", "101", "1234567890", "0000000101", "12345678901", "12 34", "10/1", "1.5"}
	days := []string{"", "0", "1", "30", "365", "36500", "x", "1.5"}
	rowsOf := func(cmd command, n int) ([][]string, []string) {
		var rows [][]string
		titles := []string{"BookingDate", "Booking Text", "Amount", "BankID", "AccountID", "Name", "Purpose"}
		for e := 1; e <= n; e++ {
			switch {
			case cmd.op.order == "HKKAZ":
				rows = append(rows, []string{"2015-01-02", "GUTSCHRIFT", fmt.Sprintf("%d.00 EUR", e), "", "", "Name", fmt.Sprintf("Zweck %d", e)})
			case cmd.sepa:
				titles = []string{"Product Name", "BIC", "IBAN", "BookingDate", "Amount", "Limit"}
				rows = append(rows, []string{"Giro", "TESTDEFFXXX", "DE02100000000000000101", "2015-01-02", fmt.Sprintf("%d.00 EUR", e), "-"})
			default:
				titles = []string{"Product Name", "BankID", "AccountID", "BookingDate", "Amount", "Limit"}
				rows = append(rows, []string{"Giro", wBank, "101", "2015-01-02", fmt.Sprintf("%d.00 EUR", e), "-"})
			}
		}
		return limits26(rows, titles), titles
	}
	orders := func(c *engine.Ctx, w *cworld, cmd command, pages, perPage int) {
		w.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
			s := m.Find(cmd.op.order)
			if s == nil {
				return []string{bank.RMG(bank.Ack(9010, "unerwarteter Auftrag"))}, nil
			}
			body := []string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}
			if k+1 < pages {
				body[1] = bank.RMS(4, bank.Ack(20, "ok"), bank.Ack(3040, more, fmt.Sprintf("M%d", k+1)))
			}
			var es []int
			for e := 0; e < perPage; e++ {
				es = append(es, k*perPage+e+1)
			}
			return append(body, cmd.op.render(4, s.Ver, es)...), nil
		}
	}
	judge := func(c *engine.Ctx, w *cworld, u *use28, cmd command, p proc28, acct, blz string, n, day, pages int, before, after time.Time) {
		what := "banking " + strings.Join(u.args, " ")
		if p.code != 0 {
			c.Fail("refused", "%s: exit status %d although the bank answers:\n%s%s%s", what, p.code, p.out, p.err, u.said)
		}
		if len(w.orders) != pages {
			c.Fail("orders", "%s: %d orders for %d pages", what, len(w.orders), pages)
		}
		number := acct
		for len(number) < 10 {
			number = "0" + number
		}
		iban := fmt.Sprintf("DE%02d%s%s", 98-mod97(blz+number+"131400"), blz, number)
		bic := ""
		if es := table[blz]; len(es) > 0 {
			bic = es[len(es)-1].BIC
		}
		for i, m := range w.orders {
			s := m.Find(cmd.op.order)
			var got, want string
			if cmd.sepa {
				got = strings.Join([]string{s.E(1, 0), s.E(1, 2), s.E(1, 4), s.E(1, 5)}, " ")
				want = strings.Join([]string{iban, acct, "280", blz}, " ")
				if b := s.E(1, 1); b != bic && b != "" {
					c.Fail("bic", "%s: asked with the BIC %q, it is %q", what, b, bic)
				}
			} else {
				got = strings.Join([]string{s.E(1, 0), s.E(1, 2), s.E(1, 3)}, " ")
				want = strings.Join([]string{acct, "280", blz}, " ")
			}
			if got != want {
				c.Fail("account", "%s: asked for account %q, not %q", what, got, want)
			}
			mark := ""
			if i > 0 {
				mark = fmt.Sprintf("M%d", i)
			}
			if g := s.E(markAt[s.ID], 0); g != mark {
				c.Fail("mark", "%s: page %d is asked for with the mark %q, not %q", what, i+1, g, mark)
			}
			if cmd.op.order == "HKKAZ" {
				from, to := s.E(3, 0), s.E(4, 0)
				ok := false
				for _, now := range []time.Time{before, after} {
					ok = ok || from == now.AddDate(0, 0, -day).Format("20060102") && (to == "" || to == now.Format("20060102"))
				}
				if !ok {
					c.Fail("period", "%s on %s: transactions from %s to %s are asked for", what, after.Format("2006-01-02"), from, to)
				}
			}
		}
		rows, titles := rowsOf(cmd, n)
		out, title := p, cmd.title
		tail := 0
		if cmd.op.order == "HKKAZ" {
			tail = 1
		}
		printed28(c, out, title, rows, titles, tail)
		if tail > 0 && n > 0 {
			for _, t := range []string{"Balance at 2015-01-01: 100.00 EUR", "Balance at 2015-01-02: 101.00 EUR", "Transactions for account 10000000/101"} {
				if !strings.Contains(p.out, t) {
					c.Fail("balance-line", "%s: %q is missing:\n%s", what, t, p.out)
				}
			}
		}
	}
	r.Explore("orders", "balances and transactions with and without SEPA, both protocols, all account numbers and numbers of days of a menu, as --name=value or --name value, one or two pages", 0, func(c *engine.Ctx) {
		cmd := commands[c.Choose(len(commands), "command")]
		version := engine.Of(c, "protocol", versions...)
		acct := engine.Of(c, "account", accounts...)
		day := ""
		if cmd.op.order == "HKKAZ" {
			day = engine.Of(c, "days", days...)
		}
		style := c.Choose(2, "style")
		pages := 1 + c.Choose(2, "pages")
		blz := bankFor(version, 0)
		home, remove := home28()
		defer remove()
		add := func(args []string, name, val string) []string {
			if style == 0 {
				return append(args, name+"="+val)
			}
			return append(args, name, val)
		}
		args := append([]string{}, cmd.args...)
		args = add(add(add(add(args, "--pin", pin28), "--userID", "4711"), "--blz", blz), "--hbci.url", srv28.url(home))
		if acct != "" {
			args = add(args, "--accountID", acct)
		}
		if day != "" {
			args = add(args, "--daysToFetch", day)
		}
		w := world(c, version)
		orders(c, w, cmd, pages, 1)
		u := &use28{w: w, home: home, args: args}
		before := time.Now().UTC()
		p := u.run()
		after := time.Now().UTC()
		c.State(fmt.Sprint(cmd.name, version, acct, day, style, pages))
		c.Validated()
		secret28(c, home, p)
		n := 10
		if day != "" {
			if k, err := fmt.Sscanf(day, "%d", &n); k != 1 || err != nil || strings.Contains(day, ".") {
				n = -1
			}
		}
		if acct == "" {
			acct = "4711"
		}
		if n < 0 || len(acct) > 10 || strings.ContainsAny(acct, " /.") {
			refused28(c, "banking "+strings.Join(args, " "), p)
			if len(w.orders) > 0 {
				c.Fail("requests", "banking %q: %d orders", args, len(w.orders))
			}
			return
		}
		asks(c, w, "4711", blz)
		judge(c, w, u, cmd, p, acct, blz, pages, n, pages, before, after)
	})

	// ---- what becomes of it ----
	all := append([]command{{"accounts", []string{"accounts"}, nil, false, "BankID"}}, commands...)
	menu := verdicts04()
	for _, v := range []struct{ status, text string }{{"500", "Internal Server Error"}, {"503", ""}, {"404", "<html>Not found</html>"}, {"200", ""}} {
		v := v
		menu = append(menu, verdict04{name: "HTTP " + v.status + " " + v.text, named: []string{}, reply: func(string) bank.Reply { return bank.Reply{Body: []byte(v.text), Note: v.status} }})
	}
	d := r.Pick(1, 2)
	r.Explore("outcomes", fmt.Sprintf("all five commands, results of 0 to 3 entries in one or two pages; up to %d exchanges answered with errors, failures or warnings: the exit status, what is printed, and nothing of the result after a failure", d), d, func(c *engine.Ctx) {
		cmd := all[c.Choose(len(all), "command")]
		version := engine.Of(c, "protocol", versions...)
		pages, per := 1, 1
		if cmd.op != nil {
			pages, per = 1+c.Choose(2, "pages"), 1+c.Choose(3, "entries")
		}
		blz := bankFor(version, 1)
		home, remove := home28()
		defer remove()
		w := world(c, version)
		if cmd.op != nil {
			orders(c, w, cmd, pages, per)
		}
		u := &use28{w: w, home: home, args: append(append([]string{}, cmd.args...), "--pin", pin28, "--userID", "101", "--blz", blz, "--hbci.url", srv28.url(home))}
		u.verdict = func(kind string) verdict04 { return menu[c.Dev(len(menu), kind+" answer")] }
		before := time.Now().UTC()
		p := u.run()
		after := time.Now().UTC()
		what := "banking " + strings.Join(cmd.args, " ") + u.said
		c.State(fmt.Sprint(cmd.name, version, pages, per, u.said))
		c.Validated()
		secret28(c, home, p)
		asks(c, w, "101", blz)
		if u.failed != "" {
			refused28(c, what, p, u.named...)
			return
		}
		if cmd.op == nil {
			if p.code != 0 {
				c.Fail("refused", "%s: exit status %d although the bank answers:\n%s%s", what, p.code, p.out, p.err)
			}
			titles := []string{"BankID", "AccountID", "UserID", "Currency", "Name", "ProductID", "Limit"}
			var rows [][]string
			for _, a := range []string{"101", "102"} {
				rows = append(rows, []string{wBank, a, "KND", "EUR", "Muster, Max", "", "-"})
			}
			printed28(c, p, "BankID", limits26(rows, titles), titles, 0)
			return
		}
		judge(c, w, u, cmd, p, "101", blz, pages*per, 10, pages, before, after)
	})

	// ---- misuse ----
	r.Explore("usage", "unknown commands and flags, missing PIN, user or bank, unknown banks, banks of other versions: refused with a message and without any request", 0, func(c *engine.Ctx) {
		cmd := all[c.Choose(len(all), "command")]
		version := versions[len(versions)-1]
		kind := engine.Of(c, "misuse", "help", "no pin", "no user", "no bank", "unknown flag", "unknown bank", "unknown command", "version 400", "version 210", "flag of another command")
		home, remove := home28()
		defer remove()
		args := append([]string{}, cmd.args...)
		pin, user, blz := true, true, bankFor(version, 0)
		ok := false
		switch kind {
		case "help":
			args, ok = append(args, "--help"), true
		case "no pin":
			pin = false
		case "no user":
			user = false
		case "no bank":
			blz = ""
		case "unknown flag":
			args = append(args, "--account", "1")
		case "unknown bank":
			blz = "99999999"
		case "unknown command":
			args[0] += "x"
		case "version 400", "version 210":
			v := 400
			if kind == "version 210" {
				v = 210
			}
			if blz = bankFor(v, 0); blz == "" {
				return
			}
		case "flag of another command":
			if cmd.op != nil && cmd.op.order == "HKKAZ" {
				return
			}
			args = append(args, "--daysToFetch", "3")
		}
		if pin {
			args = append(args, "--pin", pin28)
		}
		if user {
			args = append(args, "--userID", "101")
		}
		if blz != "" {
			args = append(args, "--blz", blz)
		}
		w := world(c, version)
		u := &use28{w: w, home: home, args: append(args, "--hbci.url", srv28.url(home))}
		p := u.run()
		c.State(cmd.name + kind)
		c.Validated()
		secret28(c, home, p)
		if p.calls > 0 {
			c.Fail("requests", "banking %q: %d requests", u.args, p.calls)
		}
		if ok {
			if p.code != 0 {
				c.Fail("help", "banking %q: exit status %d:\n%s%s", u.args, p.code, p.out, p.err)
			}
			return
		}
		refused28(c, fmt.Sprintf("banking %q", u.args), p)
	})

	// ---- the address ----
	if !r.Thorough() && len(ids) > 400 {
		var some []string
		for i := 0; i < len(ids); i += 1 + len(ids)/400 {
			some = append(some, ids[i])
		}
		ids = some
	}
	r.Explore("addresses", fmt.Sprintf("%d banks of the list without an address of their own: exactly the host of the bank's entry is called, through a proxy that lets nothing out, and nothing for a bank of another version", len(ids)), 0, func(c *engine.Ctx) {
		blz := ids[c.Choose(len(ids), "bank")]
		es := table[blz]
		home, remove := home28()
		defer remove()
		var hosts []string
		p := run28(home, nil, []string{"accounts", "--pin", pin28, "--userID", "101", "--blz", blz}, func(x *call28) {
			h := x.req.Host
			if x.req.Method != http.MethodConnect {
				h = "plain " + h
			}
			hosts = append(hosts, h)
			http.Error(x.w, "nothing leaves", http.StatusBadGateway)
		})
		c.Logf("banking accounts --blz %s: exit %d, %v\n%s%s", blz, p.code, hosts, p.out, p.err)
		what := "bank " + blz
		refused28(c, what, p)
		want := map[string]bool{}
		for _, e := range es {
			v := verNum[e.VersionNumber]
			if x := verName[e.VersionName]; x > v {
				v = x
			}
			if e.URL == "" || v != 220 && v != 300 {
				want[""] = true
				continue
			}
			addr, err := url.Parse(e.URL)
			if err != nil {
				want[""] = true
				continue
			}
			h := strings.ToLower(addr.Hostname())
			switch {
			case addr.Port() != "":
				h += ":" + addr.Port()
			case addr.Scheme == "https":
				h += ":443"
			}
			if addr.Scheme == "http" {
				h = "plain " + h
			}
			want[h] = true
		}
		for _, h := range hosts {
			if !want[strings.ToLower(h)] {
				c.Fail("address", "%s: %s is called, the entries are %v", what, h, es)
			}
		}
		if len(hosts) == 0 && !want[""] {
			c.Fail("address", "%s: nobody is called, the entries are %v; %s%s", what, es, p.out, p.err)
		}
		c.State(fmt.Sprint(hosts))
		c.Validated()
	})
}
