package props

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// C22: generated decoders read what the segment declares.
//
// Declarations of segments are enumerated, written as source, and given to
// the generator of /repo as go generate would. What it makes is compiled, by
// means of an overlay, into the package the declarations belong to, together
// with what it makes of the declarations that are in /repo; and the result is
// explored (c22_run.go, which is part of that build only).

// ver22 is a segment with its elements in the order of the message.
type ver22 struct {
	typ     string
	version int
	elems   []elem22
}

type elem22 struct{ field, typ string }

// decl22 is a declaration given to the generator.
type decl22 struct {
	name   string
	id     string
	src    string
	args   []string
	vers   []ver22
	parent string // the segment that picks the version
	// mustRefuse: no decoder is possible; mayRefuse: refusing or a right
	// decoder
	mustRefuse bool
	mayRefuse  bool
}

var types22 = []string{"element.NumberDataElement", "element.AlphaNumericDataElement", "element.AmountDataElement"}

// source22 writes the declaration of one segment.
type source22 struct {
	typ, id, iface string
	version        int
	fields         []string // lines of the structure
	elements       string   // the method that lists the elements
	recv           string
}

func (s source22) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "\ntype %s struct {\n\t%s\n", s.typ, s.iface)
	for _, f := range s.fields {
		fmt.Fprintf(&b, "\t%s\n", f)
	}
	b.WriteString("}\n\n")
	fmt.Fprintf(&b, "func (%s *%s) Version() int { return %d }\n", s.recv, s.typ, s.version)
	fmt.Fprintf(&b, "func (%s *%s) ID() string { return %q }\n", s.recv, s.typ, s.id)
	fmt.Fprintf(&b, "func (%s *%s) referencedId() string { return \"\" }\n", s.recv, s.typ)
	fmt.Fprintf(&b, "func (%s *%s) sender() string { return \"\" }\n", s.recv, s.typ)
	b.WriteString(s.elements)
	return b.String()
}

// list22 writes the usual method that lists the elements.
func list22(recv, typ string, fields []string, style int, comments bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "func (%s *%s) elements() []element.DataElement {\n\treturn []element.DataElement{", recv, typ)
	for i, f := range fields {
		nl := "\n\t\t"
		if style == 1 || style == 2 && i%2 == 1 || style == 3 && i != 0 && i != len(fields)-1 {
			nl = " "
		}
		if comments && nl != " " {
			nl = "\n\t\t// " + f + "\n\t\t"
		}
		b.WriteString(nl + recv + "." + f + ",")
	}
	if style == 1 {
		return strings.TrimSuffix(b.String(), ",") + "}\n}\n"
	}
	b.WriteString("\n\t}\n}\n")
	return b.String()
}

const head22 = "package segment\n\nimport \"github.com/mitch000001/go-hbci/element\"\n\nvar _ element.DataElement\n"

func perms22(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms22(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// decls22 enumerates the declarations.
func decls22(thorough bool) []decl22 {
	var out []decl22
	n := 0
	next := func(kind string) (string, string) {
		n++
		return fmt.Sprintf("Zz%s%d", kind, n), fmt.Sprintf("Z%04d", n)
	}
	name := func(i int) string { return fmt.Sprintf("F%c%d", 'z'-i%20, i) }
	// shape adds a plain segment; types by structure order, order of the message
	shape := func(kind string, types []string, order []int, style int, edit func(s *source22, d *decl22)) {
		typ, id := next(kind)
		s := source22{typ: typ, id: id, iface: "Segment", version: 1 + n%9, recv: "s"}
		var fields []string
		for i, t := range types {
			s.fields = append(s.fields, name(i)+" *"+t)
		}
		v := ver22{typ: typ, version: s.version}
		for _, k := range order {
			fields = append(fields, name(k))
			v.elems = append(v.elems, elem22{name(k), types[k]})
		}
		s.elements = list22(s.recv, typ, fields, style, false)
		d := decl22{name: typ, id: id, args: []string{"-segment", typ}, vers: []ver22{v}}
		pre, post := "", ""
		if edit != nil {
			edit(&s, &d)
			if i := strings.Index(d.src, "%"); i >= 0 {
				pre, post = d.src[:i], d.src[i+1:]
			}
		}
		d.src = head22 + pre + s.String() + post
		out = append(out, d)
	}
	// every segment of up to three elements (four)
	max := 3
	if thorough {
		max = 4
	}
	for m := 1; m <= max; m++ {
		total := 1
		for i := 0; i < m; i++ {
			total *= len(types22)
		}
		for k := 0; k < total; k++ {
			types := make([]string, m)
			for i, x := 0, k; i < m; i, x = i+1, x/len(types22) {
				types[i] = types22[x%len(types22)]
			}
			for _, p := range perms22(m) {
				for style := 0; style < 3; style++ {
					if m == 4 && style == 2 && k%3 != 0 {
						continue
					}
					shape("S", types, p, style, nil)
				}
			}
		}
	}
	// long ones
	long := 24
	if thorough {
		long = 60
	}
	for m := max + 1; m <= long; m++ {
		for style := 0; style < 4; style++ {
			for _, rev := range []bool{false, true} {
				types := make([]string, m)
				order := make([]int, m)
				for i := range types {
					types[i] = types22[(i*i+m)%len(types22)]
					order[i] = i
					if rev {
						order[i] = m - 1 - i
					}
				}
				shape("L", types, order, style, nil)
			}
		}
	}
	// surroundings
	other := "\ntype %[1]sOther struct {\n\tFz0 *element.BooleanDataElement\n\tFy1 *element.BooleanDataElement\n}\n\nfunc (s *%[1]sOther) elements() []element.DataElement {\n\treturn []element.DataElement{\n\t\ts.Fy1,\n\t\ts.Fz0,\n\t}\n}\n"
	for where := 0; where < 3; where++ {
		for unused := 0; unused < 4; unused++ {
			for _, comments := range []bool{false, true} {
				for _, recv := range []string{"s", "segment", "z"} {
					for _, iface := range []string{"Segment", "ClientSegment", "own"} {
						shape("V", []string{types22[0], types22[1], types22[2]}, []int{2, 0, 1}, 0, func(s *source22, d *decl22) {
							s.recv = recv
							switch unused {
							case 1:
								s.fields = append([]string{"Fw9 *element.BooleanDataElement"}, s.fields...)
							case 2:
								s.fields = append(s.fields, "lazy map[string]*element.BooleanDataElement", "Names []string `json:\"names\"`")
							case 3:
								s.fields = append([]string{"count int"}, s.fields...)
							}
							s.elements = list22(recv, s.typ, []string{name(2), name(0), name(1)}, 0, comments)
							o := fmt.Sprintf(other, s.typ)
							switch where {
							case 1:
								d.src = o + "%"
							case 2:
								d.src = "%" + o
							default:
								d.src = "%"
							}
							if iface != "Segment" {
								s.iface = iface
								if iface == "own" {
									s.iface = s.typ + "Iface"
									d.src += "\ntype " + s.iface + " interface {\n\tSegment\n}\n"
								}
								d.args = append(d.args, "-segment_interface", s.iface)
							}
						})
					}
				}
			}
		}
	}
	// versions
	sets := [][]int{{1}, {2}, {10}, {1, 2}, {2, 1}, {1, 10}, {10, 1}, {2, 10}, {10, 2}, {1, 2, 10}, {1, 10, 2}, {2, 1, 10}, {2, 10, 1}, {10, 1, 2}, {10, 2, 1}}
	for _, set := range sets {
		for variant := 0; variant < 3; variant++ {
			for _, own := range []bool{false, true} {
				for _, same := range []bool{false, true} {
					typ, id := next("W")
					iface := typ + "Iface"
					d := decl22{name: typ, id: id, parent: typ}
					src := head22 + "\ntype " + typ + " struct {\n\t" + iface + "\n}\n\ntype " + iface + " interface {\n\tBankSegment\n}\n"
					var flag []string
					var bodies []string
					for i, version := range set {
						vt := fmt.Sprintf("%sV%d", typ, version)
						m := 1 + (i+variant)%3
						s := source22{typ: vt, id: id, iface: "Segment", version: version, recv: "s"}
						v := ver22{typ: vt, version: version}
						var fields []string
						for k := 0; k < m; k++ {
							t := types22[(k+version+variant)%len(types22)]
							if same {
								t = types22[1]
							}
							s.fields = append(s.fields, name(k)+" *"+t)
						}
						for k := m - 1; k >= 0; k-- {
							kk := k
							if version%2 == 1 {
								kk = m - 1 - k
							}
							t := types22[(kk+version+variant)%len(types22)]
							if same {
								t = types22[1]
							}
							fields = append(fields, name(kk))
							v.elems = append(v.elems, elem22{name(kk), t})
						}
						s.elements = list22("s", vt, fields, variant, false)
						if own {
							s.iface = "ClientSegment"
							flag = append(flag, fmt.Sprintf("%s:%d:%s", vt, version, s.iface))
						} else {
							flag = append(flag, fmt.Sprintf("%s:%d", vt, version))
						}
						bodies = append(bodies, s.String())
						d.vers = append(d.vers, v)
					}
					if variant == 1 {
						sort.Sort(sort.Reverse(sort.StringSlice(bodies)))
					}
					d.src = src + strings.Join(bodies, "")
					d.args = []string{"-segment", typ, "-segment_interface", iface, `-segment_versions="` + strings.Join(flag, ",") + `"`}
					out = append(out, d)
				}
			}
		}
	}
	// unusual ways to list the elements
	two := []string{types22[0], types22[1]}
	ways := map[string]string{
		"Var":    "\tlist := []element.DataElement{s.Fz0, s.Fy1}\n\treturn list\n",
		"Append": "\treturn append([]element.DataElement{s.Fz0}, s.Fy1)\n",
		"If":     "\tif s.Fz0 == nil {\n\t\treturn []element.DataElement{s.Fz0, s.Fy1}\n\t}\n\treturn []element.DataElement{s.Fz0, s.Fy1}\n",
		"Helper": "\treturn elementsOf(s.Fz0, s.Fy1)\n",
	}
	var keys []string
	for k := range ways {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		shape("Way"+k, two, []int{0, 1}, 0, func(s *source22, d *decl22) {
			s.elements = "func (s *" + s.typ + ") elements() []element.DataElement {\n" + ways[k] + "}\n"
			d.src = "%"
			if k == "Helper" {
				d.src += "\nfunc elementsOf(e ...element.DataElement) []element.DataElement { return e }\n"
			}
			d.mayRefuse = true
		})
	}
	shape("Alias", two, []int{0, 1}, 0, func(s *source22, d *decl22) {
		d.src = "\ntype elementList = []element.DataElement\n%"
		s.elements = strings.ReplaceAll(s.elements, "[]element.DataElement", "elementList")
		d.mayRefuse = true
	})
	shape("Joined", []string{types22[0], types22[0], types22[1]}, []int{1, 0, 2}, 0, func(s *source22, d *decl22) {
		s.fields = []string{"Fz0, Fy1 *" + types22[0], "Fx2 *" + types22[1]}
		d.mayRefuse = true
	})
	shape("Value", two, []int{0}, 0, func(s *source22, d *decl22) {
		s.elements = list22("s", s.typ, []string{"Fz0"}, 0, false)
		d.mayRefuse = true
	})
	for _, body := range []string{"return []element.DataElement{}", "return nil", "return []element.DataElement{\n\t}"} {
		shape("Empty", nil, nil, 0, func(s *source22, d *decl22) {
			s.elements = "func (s *" + s.typ + ") elements() []element.DataElement { " + body + " }\n"
			d.mayRefuse = true
		})
	}
	// what no decoder can be made of
	refuse := func(kind string, edit func(s *source22, d *decl22)) {
		shape("Bad"+kind, two, []int{0, 1}, 0, func(s *source22, d *decl22) {
			d.mustRefuse = true
			edit(s, d)
		})
	}
	refuse("NoList", func(s *source22, d *decl22) { s.elements = "" })
	refuse("Plain", func(s *source22, d *decl22) {
		s.fields[1] = strings.Replace(s.fields[1], "*"+types22[1], "[]*"+types22[1], 1)
	})
	refuse("Undeclared", func(s *source22, d *decl22) { s.fields = s.fields[:1] })
	refuse("Nil", func(s *source22, d *decl22) { s.elements = strings.Replace(s.elements, "s.Fy1", "nil", 1) })
	refuse("Call", func(s *source22, d *decl22) { s.elements = strings.Replace(s.elements, "s.Fy1", "s.Fy1()", 1) })
	refuse("Nested", func(s *source22, d *decl22) { s.elements = strings.Replace(s.elements, "s.Fy1", "s.Fz0.Fy1", 1) })
	refuse("Name", func(s *source22, d *decl22) { d.args = []string{"-segment", s.typ + "X"} })
	refuse("NoName", func(s *source22, d *decl22) { d.args = nil })
	refuse("Syntax", func(s *source22, d *decl22) { d.src = "%\nfunc (" })
	refuse("SyntaxBefore", func(s *source22, d *decl22) { d.src = "type = {\n%" })
	for i, flag := range []string{`"%s"`, `"%s:x"`, `"%s:1,%sX:2"`, `"%sX:1"`, `"%s:"`, `%s:1`} {
		refuse(fmt.Sprintf("Versions%d", i), func(s *source22, d *decl22) {
			d.args = append(d.args, "-segment_versions="+strings.ReplaceAll(flag, "%s", s.typ))
		})
	}
	return out
}

// result22 says what the generator did with a declaration.
type result22 struct {
	RC      int
	Output  string
	Written bool
}

// Generate22 gives every declaration, and those of /repo, to the generator
// and writes what is needed to build the result into dir.
func Generate22(dir, repo string, thorough bool) error {
	tool := filepath.Join(dir, "unmarshaler")
	build := exec.Command("go", "build", "-o", tool, "./cmd/unmarshaler")
	build.Dir = repo
	if out, err := build.CombinedOutput(); err != nil {
		return fmt.Errorf("building the generator: %v\n%s", err, out)
	}
	run := func(work, file string, args []string) result22 {
		cmd := exec.Command(tool, args...)
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "GOFILE="+file, "GOPACKAGE=segment")
		made := filepath.Join(work, strings.TrimSuffix(file, ".go")+"_unmarshaler.go")
		os.Remove(made)
		out, err := cmd.CombinedOutput()
		res := result22{Output: string(out)}
		if err != nil {
			res.RC = 1
		}
		if b, err := os.ReadFile(made); err == nil && len(b) > 0 {
			res.Written = true
		}
		return res
	}
	results := map[string]result22{}
	overlay := map[string]string{}
	target := func(name string) string { return filepath.Join(repo, "segment", name) }

	shapes := filepath.Join(dir, "shapes")
	if err := os.MkdirAll(shapes, 0o755); err != nil {
		return err
	}
	var registry []string
	for _, d := range decls22(thorough) {
		file := "zz_" + strings.ToLower(d.name) + ".go"
		if err := os.WriteFile(filepath.Join(shapes, file), []byte(d.src), 0o644); err != nil {
			return err
		}
		res := run(shapes, file, d.args)
		results[d.name] = res
		if d.mustRefuse || res.RC != 0 || !res.Written {
			continue
		}
		made := strings.TrimSuffix(file, ".go") + "_unmarshaler.go"
		overlay[target(file)] = filepath.Join(shapes, file)
		overlay[target(made)] = filepath.Join(shapes, made)
		registry = append(registry, fmt.Sprintf("\t%q: func() Segment { return &%s{} },\n", d.name, d.name))
	}
	reg := "package segment\n\n// VerifDecls are the enumerated declarations.\nvar VerifDecls = map[string]func() Segment{\n" + strings.Join(registry, "") + "}\n"
	if err := os.WriteFile(filepath.Join(shapes, "registry.go"), []byte(reg), 0o644); err != nil {
		return err
	}
	overlay[target("zz_verif_registry.go")] = filepath.Join(shapes, "registry.go")

	// the declarations of the repository
	own := filepath.Join(dir, "own")
	if err := os.MkdirAll(own, 0o755); err != nil {
		return err
	}
	files, err := filepath.Glob(filepath.Join(repo, "segment", "*.go"))
	if err != nil {
		return err
	}
	directive := regexp.MustCompile(`(?m)^//go:generate go run \S*unmarshaler_generator.go (.*)$`)
	for _, f := range files {
		base := filepath.Base(f)
		if strings.HasSuffix(base, "_test.go") || strings.HasSuffix(base, "_unmarshaler.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		ms := directive.FindAllStringSubmatch(string(src), -1)
		if ms == nil {
			continue
		}
		if err := os.WriteFile(filepath.Join(own, base), src, 0o644); err != nil {
			return err
		}
		for _, m := range ms {
			res := run(own, base, strings.Fields(m[1]))
			results["/"+base] = res
			made := strings.TrimSuffix(base, ".go") + "_unmarshaler.go"
			if res.RC == 0 && res.Written {
				overlay[target(made)] = filepath.Join(own, made)
			}
		}
	}
	for name, v := range map[string]any{"overlay.json": map[string]any{"Replace": overlay}, "results.json": results} {
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
