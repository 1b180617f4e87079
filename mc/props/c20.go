package props

import (
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

// repoDir is where the code under test lies.
func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// bankCols are the columns of the list of banks, in the order of the fields of
// bankinfo.BankInfo.
var bankCols = []string{"BLZ", "BIC", "HBCI-Version", "PIN/TAN-Zugang URL", "Version", "Institut", "Ort", "Datum letzte Änderung"}

func bankOf(v []string) bankinfo.BankInfo {
	return bankinfo.BankInfo{BankID: v[0], BIC: v[1], VersionNumber: v[2], URL: v[3], VersionName: v[4], Institute: v[5], City: v[6], LastChanged: v[7]}
}

// cell is a way to write a value into CSV.
type cell struct{ raw, val string }

func cells(col, row int) []cell {
	v := fmt.Sprintf("%d0%d", col, row)
	return []cell{
		{v, v}, {"", ""}, {`"` + v + `;x"`, v + ";x"}, {`"a ""` + v + `"""`, `a "` + v + `"`},
		{"  " + v + "  ", v}, {`"` + v + "\ny\"", v + "\ny"}, {"Köln", "Köln"}, {`" "`, ""}, {" ", ""},
	}
}

// permutation chooses an order of n things.
func permutation(c *engine.Ctx, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	out := make([]int, 0, n)
	for len(rest) > 0 {
		i := c.Choose(len(rest), "col")
		out = append(out, rest[i])
		rest = append(append([]int{}, rest[:i]...), rest[i+1:]...)
	}
	return out
}

func checkCSV(c *engine.Ctx, text string, want []bankinfo.BankInfo) {
	var got []bankinfo.BankInfo
	var err error
	if p := engine.Guard(func() { got, err = bankinfo.ParseBankInfos(strings.NewReader(text)) }); p != "" {
		c.Fail("panic:csv", "%q: %s", text, p)
	}
	c.Between()
	if c.Verbose() {
		c.Logf("%q: %v, error %v", text, got, err)
	}
	if err != nil {
		c.Fail("csv-error", "%q: %v", text, err)
	}
	if canon(got) != canon(want) {
		c.Fail("csv", "%q is read as %s, not %s", text, canon(got), canon(want))
	}
	c.State(text)
	c.Validated()
}

var bankEntryRE = regexp.MustCompile(`\{\s*BankID:\s*"([^"]*)",\s*BIC:\s*"([^"]*)",\s*VersionNumber:\s*"([^"]*)",\s*URL:\s*"([^"]*)",\s*VersionName:\s*"([^"]*)",\s*Institute:\s*("(?:[^"\\]|\\.)*"),\s*City:\s*"([^"]*)",\s*LastChanged:\s*"([^"]*)",?\s*\}`)

// bankTable reads the entries of the bank list from the source of the package,
// which only says which bank codes to look up.
func bankTable() map[string][]bankinfo.BankInfo {
	out := map[string][]bankinfo.BankInfo{}
	files, _ := filepath.Glob(filepath.Join(repoDir(), "bankinfo", "*.go"))
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range bankEntryRE.FindAllStringSubmatch(string(b), -1) {
			inst := m[6]
			fmt.Sscanf(inst, "%q", &inst)
			e := bankOf([]string{m[1], m[2], m[3], m[4], m[5], inst, m[7], m[8]})
			out[e.BankID] = append(out[e.BankID], e)
		}
	}
	return out
}

var verNum = map[string]int{"": -1, "2.1": 210, "2.2": 220, "3.0": 300, "4.0": 400, "4.1": 410}
var verName = map[string]int{"": -1, "HBCI 2.2 Erweiterung PIN/TAN V1.01": 220, "FinTS V3.0": 300, "FinTS V4.0": 400, "FinTS V4.1": 410}

func init() {
	engine.Register("C20", func(r *engine.Runner) {
		n := r.Pick(7, 8)
		r.ExploreBetween("columns", fmt.Sprintf("every order of %d columns, with a foreign column before, between and after", n), 0, func(c *engine.Ctx) {
			p := permutation(c, n)
			foreign := engine.Of(c, "foreign", -1, 0, n/2, n)
			var head, row1, row2 []string
			v1, v2 := make([]string, 8), make([]string, 8)
			for i, k := range p {
				if i == foreign {
					head, row1, row2 = append(head, "Organisation"), append(row1, "BdB"), append(row2, "")
				}
				head = append(head, bankCols[k])
				v1[k], v2[k] = fmt.Sprintf("%d1", k), fmt.Sprintf("%d2", k)
				row1, row2 = append(row1, v1[k]), append(row2, v2[k])
			}
			if foreign == n {
				head, row1, row2 = append(head, "Organisation"), append(row1, "BdB"), append(row2, "")
			}
			checkCSV(c, strings.Join(head, ";")+"\n"+strings.Join(row1, ";")+"\n"+strings.Join(row2, ";")+"\n", []bankinfo.BankInfo{bankOf(v1), bankOf(v2)})
		})
		r.ExploreBetween("missing", "every subset of the columns, with every number of cells left out at the end of a row, line ends of two kinds, with and without one at the end", 0, func(c *engine.Ctx) {
			set := c.Choose(256, "set")
			nl := engine.Of(c, "nl", "\n", "\r\n")
			var idx []int
			var head []string
			for i := range bankCols {
				if set&(1<<i) != 0 {
					idx = append(idx, i)
					head = append(head, bankCols[i])
				}
			}
			if len(head) == 0 {
				head = []string{"Nr."}
			}
			keep := c.Choose(len(idx)+1, "keep")
			text := strings.Join(head, ";") + nl
			var want []bankinfo.BankInfo
			for row := 0; row < 2; row++ {
				v := make([]string, 8)
				var out []string
				for i, k := range idx {
					if row == 0 && i >= keep {
						break
					}
					v[k] = fmt.Sprintf("%d%d", k, row)
					out = append(out, v[k])
				}
				text += strings.Join(out, ";")
				if row == 0 || c.Bool("lastnl") {
					text += nl
				}
				if v[0] != "" {
					want = append(want, bankOf(v))
				}
			}
			checkCSV(c, text, want)
		})
		d := r.Pick(2, 3)
		r.ExploreBetween("cells", fmt.Sprintf("three rows in which up to %d cells are written in an unusual way", d), d, func(c *engine.Ctx) {
			text := strings.Join(bankCols, ";") + ";;\n"
			var want []bankinfo.BankInfo
			for row := 0; row < 3; row++ {
				v := make([]string, 8)
				var out []string
				for k := range bankCols {
					ce := cells(k, row)
					x := ce[c.Dev(len(ce), "cell")]
					v[k] = x.val
					out = append(out, x.raw)
				}
				text += strings.Join(out, ";") + ";;\n"
				if v[0] != "" {
					want = append(want, bankOf(v))
				}
			}
			checkCSV(c, text, want)
		})
		rows := r.Pick(300, 3000)
		r.Explore("long lists", fmt.Sprintf("lists of every number of rows up to %d, with and without rows that name no bank in between, every length of a cell up to %d in each column", rows, rows), 0, func(c *engine.Ctx) {
			text := strings.Join(bankCols, ";") + "\n"
			var want []bankinfo.BankInfo
			n, long, length, gap := 2, -1, 0, 0
			if c.Bool("cells") {
				long, length = c.Choose(len(bankCols), "column"), c.Choose(rows+1, "length")
			} else {
				n, gap = c.Choose(rows+1, "rows"), c.Choose(4, "gap")
			}
			for row := 0; row < n; row++ {
				v := make([]string, 8)
				for k := range bankCols {
					v[k] = fmt.Sprintf("%d%d", k+1, row)
					if k == long && row == 0 {
						v[k] = strings.Repeat("9", length)
					}
				}
				if gap > 0 && row%(gap*7) == 3 {
					v[0] = ""
				}
				text += strings.Join(v, ";") + "\n"
				if v[0] != "" {
					want = append(want, bankOf(v))
				}
			}
			checkCSV(c, text, want)
		})
		r.Explore("bics", "every order of four columns of the BIC list, rows with and without bank code", 0, func(c *engine.Ctx) {
			cols := []string{"Bank-leitzahl", "BIC", "Institut", ""}
			p := permutation(c, 4)
			text := ""
			for i, k := range p {
				if i > 0 {
					text += ";"
				}
				text += cols[k]
			}
			text += "\n"
			var want []bankinfo.BicInfo
			for row := 0; row < 3; row++ {
				v := []string{fmt.Sprint("1000", row), fmt.Sprint("BICX", row), "Bank", ""}
				if c.Bool("noid") {
					v[0] = ""
				}
				if c.Bool("nobic") {
					v[1] = " "
				}
				for i, k := range p {
					if i > 0 {
						text += ";"
					}
					text += v[k]
				}
				text += "\n"
				if v[0] != "" {
					want = append(want, bankinfo.BicInfo{BankID: v[0], BIC: strings.TrimSpace(v[1])})
				}
			}
			got, err := bankinfo.ParseBicData(strings.NewReader(text))
			if err != nil || canon(got) != canon(want) {
				c.Fail("bics", "%q is read as %s, not %s, error %v", text, canon(got), canon(want), err)
			}
			c.State(text)
		})
		r.Explore("damaged", "a stray quote in every cell, and a source that fails after every byte: an error, never a shortened list", 0, func(c *engine.Ctx) {
			rows := [][]string{bankCols, {"1", "2", "3", "4", "5", "6", "7", "8"}, {"11", "2", "3", "4", "5", "6", "7", "8"}}
			var rd io.Reader
			what := ""
			if c.Bool("quote") {
				i, j := c.Choose(3, "row"), c.Choose(8, "col")
				text := ""
				for k, row := range rows {
					cp := append([]string{}, row...)
					if k == i {
						cp[j] = engine.Of(c, "how", cp[j]+`"x`, `"`+cp[j], `"`+cp[j]+`"x`)
					}
					text += strings.Join(cp, ";") + "\n"
				}
				rd, what = strings.NewReader(text), text
			} else {
				text := ""
				for _, row := range rows {
					text += strings.Join(row, ";") + "\n"
				}
				k := c.Choose(len(text)+1, "at")
				what = text[:k]
				rd = &chunked{data: []byte(what), size: 16, err: errBroken, withErr: c.Bool("errWithData")}
			}
			var err error
			var got []bankinfo.BankInfo
			if p := engine.Guard(func() { got, err = bankinfo.ParseBankInfos(rd) }); p != "" {
				c.Fail("panic:damaged", "%q: %s", what, p)
			}
			if err == nil {
				c.Fail("damaged", "the damaged list %q is read as %s", what, canon(got))
			}
			c.State(what)
		})
		r.Explore("versions", "every pair of known, missing and unknown version names and numbers", 0, func(c *engine.Ctx) {
			name := engine.Of(c, "name", "", "HBCI 2.2 Erweiterung PIN/TAN V1.01", "FinTS V3.0", "FinTS V4.0", "FinTS V4.1", "FinTS 3.0", "fints v3.0", "3.0", "FinTS V9.0")
			num := engine.Of(c, "number", "", "2.1", "2.2", "3.0", "4.0", "4.1", "3", "300", "FinTS V3.0", "9.0", " 3.0")
			got := 0
			p := engine.Guard(func() { got = bankinfo.BankInfo{VersionName: name, VersionNumber: num}.HbciVersion() })
			a, okA := verName[name]
			b, okB := verNum[num]
			if a < b {
				a = b
			}
			switch {
			case okA && okB && (p != "" || got != a):
				c.Fail("version", "name %q and number %q are version %d %s, not %d", name, num, got, p, a)
			case (!okA || !okB) && p == "" && got > 0:
				c.Fail("version-guessed", "name %q and number %q are version %d", name, num, got)
			}
			c.State(name + "|" + num)
			c.Validated()
		})
		table := bankTable()
		ids := make([]string, 0, len(table))
		for id := range table {
			ids = append(ids, id)
		}
		if len(ids) == 0 {
			ids = []string{"10010010", "10020200", "10020890"}
		}
		sort.Strings(ids)
		r.Explore("lookup", fmt.Sprintf("all %d bank codes of the list and the neighbours of each: the entry of exactly this bank or none, the same one every time", len(ids)), 0, func(c *engine.Ctx) {
			id := ids[c.Choose(len(ids), "bank")]
			got := bankinfo.FindByBankID(id)
			if got.BankID != id {
				c.Fail("lookup", "bank %s is found as %s", id, canon(got))
			}
			if es := table[id]; len(es) > 0 {
				found := false
				for _, e := range es {
					found = found || canon(e) == canon(got)
				}
				if !found {
					c.Fail("lookup-entry", "bank %s is found as %s, none of its %d entries", id, canon(got), len(es))
				}
			}
			if canon(bankinfo.FindByBankID(id)) != canon(got) {
				c.Fail("lookup-unstable", "bank %s has changing entries", id)
			}
			for _, x := range []string{id + "0", "0" + id, id[:len(id)-1], id[1:], " " + id, id + " ", id[:4] + " " + id[4:], id[:len(id)-1] + "X"} {
				if _, ok := table[x]; !ok && canon(bankinfo.FindByBankID(x)) != canon(bankinfo.BankInfo{}) {
					c.Fail("lookup-wrong", "the unknown bank %q is found as %s", x, canon(bankinfo.FindByBankID(x)))
				}
			}
			c.State(canon(got))
			c.Validated()
		})
		r.Explore("client", "every bank code of the list and unknown ones, with and without address and version of its own: a client connects with its own settings, else with those of the list, and is refused without either", 0, func(c *engine.Ctx) {
			i := c.Choose(len(ids)+3, "bank")
			id := ""
			if i < len(ids) {
				id = ids[i]
			} else {
				id = []string{"", "99999999", "1001001"}[i-len(ids)]
			}
			info := bankinfo.FindByBankID(id)
			cfg := client.Config{BankID: id, AccountID: "user1", PIN: "12345", ProductName: "p", ProductVersion: "1"}
			cfg.URL = engine.Of(c, "url", "", "https://own.example/x?y=1")
			cfg.HBCIVersion = engine.Of(c, "version", 0, 220, 300, 210, 400, 999, 1)
			var sentURL, sent string
			calls := 0
			if c.Bool("transport") {
				cfg.Transport = transport.Func(func(q *transport.Request) (*transport.Response, error) {
					calls++
					b, _ := io.ReadAll(q.Body)
					if d, err := base64.StdEncoding.DecodeString(string(b)); err == nil {
						b = d
					}
					sentURL, sent = q.URL, string(b)
					return nil, errBroken
				})
			}
			var cl *client.Client
			var err error
			if p := engine.Guard(func() { cl, err = client.New(cfg) }); p != "" {
				c.Fail("panic:new", "bank %q, URL %q, version %d: %s", id, cfg.URL, cfg.HBCIVersion, p)
			}
			url, ver := cfg.URL, cfg.HBCIVersion
			if url == "" {
				url = info.URL
			}
			if ver == 0 {
				ver = verNum[info.VersionNumber]
				if x := verName[info.VersionName]; x > ver {
					ver = x
				}
			}
			okVer := ver == 220 || ver == 300
			if c.Verbose() {
				c.Logf("bank %q -> %s; URL %q, version %d, error %v", id, canon(info), cfg.URL, cfg.HBCIVersion, err)
			}
			if err == nil && (!okVer || url == "" && cfg.Transport == nil) {
				c.Fail("new-accepts", "bank %q, URL %q, version %d: a client without a usable address or version (%q, %d)", id, cfg.URL, cfg.HBCIVersion, url, ver)
			}
			if err != nil {
				if okVer && url != "" {
					c.Fail("new-refuses", "bank %q, URL %q, version %d: %v", id, cfg.URL, cfg.HBCIVersion, err)
				}
				c.State(fmt.Sprint("refused", okVer, url != ""))
				return
			}
			if cfg.Transport == nil {
				c.State(fmt.Sprint("made", ver, url))
				return // its requests would go to the network
			}
			if _, err := cl.Accounts(); err == nil || calls != 1 {
				c.Fail("client-fault", "%d requests, error %v", calls, err)
			}
			if sentURL != url {
				c.Fail("client-url", "bank %q: the request goes to %q, not to %q", id, sentURL, url)
			}
			if !strings.HasPrefix(sent, "HNHBK:1:3+") || len(sent) < 30 || !strings.HasPrefix(sent[22:], fmt.Sprintf("+%d+", ver)) {
				c.Fail("client-version", "bank %q: %q is not a message of version %d", id, sent, ver)
			}
			c.State(fmt.Sprint(ver, url))
			c.Validated()
		})
		generatedTable(r)
	})
}
