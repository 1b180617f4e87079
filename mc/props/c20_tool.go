package props

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/text/encoding/charmap"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

// C20, the table of banks: cmd/bankdata_parser turns lists of banks into the
// table the library looks banks up in.

var listRuns int64

// tableOf reads the entries of a generated table.
func tableOf(src []byte) ([]bankinfo.BankInfo, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "data.go", src, 0)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "bankinfo" {
		return nil, fmt.Errorf("package %s", f.Name.Name)
	}
	var out []bankinfo.BankInfo
	found := false
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok || len(v.Names) != 1 || v.Names[0].Name != "data" || len(v.Values) != 1 {
				continue
			}
			l, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				continue
			}
			found = true
			for _, e := range l.Elts {
				entry, ok := e.(*ast.CompositeLit)
				if !ok {
					return nil, fmt.Errorf("an entry of another kind")
				}
				vals := map[string]string{}
				for i, kv := range entry.Elts {
					name, val := "", e
					if k, ok := kv.(*ast.KeyValueExpr); ok {
						name, val = k.Key.(*ast.Ident).Name, k.Value
					} else {
						name, val = []string{"BankID", "BIC", "VersionNumber", "URL", "VersionName", "Institute", "City", "LastChanged"}[i], kv
					}
					b, ok := val.(*ast.BasicLit)
					if !ok {
						return nil, fmt.Errorf("a value of another kind")
					}
					text, err := strconv.Unquote(b.Value)
					if err != nil {
						return nil, err
					}
					vals[name] = text
				}
				out = append(out, bankOf([]string{vals["BankID"], vals["BIC"], vals["VersionNumber"], vals["URL"], vals["VersionName"], vals["Institute"], vals["City"], vals["LastChanged"]}))
			}
		}
	}
	if !found {
		return nil, fmt.Errorf("no table")
	}
	return out, nil
}

func generatedTable(r *engine.Runner) {
	exe := tool("./cmd/bankdata_parser")
	odd := []cell{
		{"", ""}, {`"a;b"`, "a;b"}, {`"the ""x"" bank"`, `the "x" bank`}, {`back\slash\n`, `back\slash\n`}, {"\"two\nlines\"", "two\nlines"},
		{"Köln/Düsseldorf", "Köln/Düsseldorf"}, {"`tick`", "`tick`"}, {"{{.BIC}}", "{{.BIC}}"}, {"<b>&amp", "<b>&amp"}, {"' + \x7f", "' + \x7f"}, {"  x  ", "x"}, {"é§¤", "é§¤"},
	}
	d := r.Pick(1, 2)
	r.Explore("generated table", fmt.Sprintf("the table generated from up to three lists of up to three rows, banks in any order and in several lists, up to %d peculiarities: numbers of rows, values out of the ordinary, damage: exactly the rows of the lists, by bank code; a list that is damaged or missing leaves the table as it was", d), d, func(c *engine.Ctx) {
		dir := filepath.Join(toolDir(), fmt.Sprintf("list%d", atomic.AddInt64(&listRuns, 1)))
		if err := os.MkdirAll(filepath.Join(dir, "bankinfo"), 0o755); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "bankinfo", "data.go")
		old := "package bankinfo\n\nvar data = []BankInfo{}\n"
		if err := os.WriteFile(path, []byte(old), 0o644); err != nil {
			panic(err)
		}
		files := 1 + c.Choose(3, "lists")
		shape := c.Dev(4, "rows of every list")
		rows := []int{2, 0, 1, 3}[shape]
		damage := c.Dev(4, "damage") // none, missing file, stray quote, no lists at all
		var want []bankinfo.BankInfo
		var args []string
		ids := []string{"30000000", "10000000", "20000000", "10000001", "1000000", "30000000", "5", "9", "20000000"}
		what := ""
		for f := 0; f < files; f++ {
			text := strings.Join(bankCols, ";") + "\n"
			before := make([]cell, len(bankCols))
			for row := 0; row < rows; row++ {
				var out []string
				v := make([]string, 8)
				// in common with the row before: nothing, the bank, the bank
				// and the URL, everything but one value
				same := 0
				if row > 0 {
					same = c.Dev(3+len(bankCols), "like the row before")
				}
				for k := range bankCols {
					x := cell{fmt.Sprintf("%d%d%d", k, row, f), fmt.Sprintf("%d%d%d", k, row, f)}
					if k == 0 {
						x = cell{ids[f*3+row], ids[f*3+row]}
					}
					if same == 1 && k == 0 || same == 2 && (k == 0 || k == 3) || same > 2 && k != same-3 {
						x = before[k]
					}
					if n := c.Dev(1+len(odd), "value"); n > 0 {
						x = odd[n-1]
					}
					before[k] = x
					v[k] = x.val
					out = append(out, x.raw)
				}
				text += strings.Join(out, ";") + "\n"
				if v[0] != "" {
					want = append(want, bankOf(v))
				}
			}
			name := fmt.Sprintf("list%d.csv", f)
			args = append(args, name)
			if f == files-1 {
				switch damage {
				case 1:
					continue
				case 2:
					text += "1;2;3\"4;\"5\n"
				case 3:
					args = nil
				}
			}
			what += text
			latin, err := charmap.ISO8859_1.NewEncoder().String(text)
			if err != nil {
				panic(err)
			}
			if err := os.WriteFile(filepath.Join(dir, name), []byte(latin), 0o644); err != nil {
				panic(err)
			}
		}
		cmd := exec.Command(exe, args...)
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		src, _ := os.ReadFile(path)
		c.Logf("%s%v\n%s", out, err, src)
		c.State(what + fmt.Sprint(damage))
		c.Validated()
		if damage > 0 {
			if err == nil {
				c.Fail("list-damaged", "lists %q (damage %d) are accepted", what, damage)
			}
			if string(src) != old {
				c.Fail("list-replaced", "lists %q (damage %d) are refused, but the table is now %q", what, damage, src)
			}
			return
		}
		if err != nil {
			c.Fail("list-refused", "lists %q: %v: %s", what, err, out)
		}
		got, err := tableOf(src)
		if err != nil {
			c.Fail("table-unreadable", "lists %q make the table %q: %v", what, src, err)
		}
		if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].BankID < got[j].BankID }) {
			c.Fail("table-order", "lists %q make a table that is not sorted: %s", what, canon(got))
		}
		less := func(l []bankinfo.BankInfo) func(i, j int) bool {
			return func(i, j int) bool { return canon(l[i]) < canon(l[j]) }
		}
		sort.Slice(got, less(got))
		sort.Slice(want, less(want))
		if len(got) != len(want) || len(got) > 0 && canon(got) != canon(want) {
			c.Fail("table", "lists %q make the table %s, not %s", what, canon(got), canon(want))
		}
	})
}
