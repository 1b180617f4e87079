//go:build verifgen

package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

var make22 = map[string]func() element.DataElement{
	"element.NumberDataElement":       func() element.DataElement { return &element.NumberDataElement{} },
	"element.AlphaNumericDataElement": func() element.DataElement { return &element.AlphaNumericDataElement{} },
	"element.AmountDataElement":       func() element.DataElement { return &element.AmountDataElement{} },
}

// value22 is the content of the i-th element of a message.
func value22(typ string, i int) string {
	switch typ {
	case "element.NumberDataElement":
		return fmt.Sprint(100 + i)
	case "element.AmountDataElement":
		return fmt.Sprintf("%d,5:EUR", 10+i)
	default:
		return fmt.Sprintf("t?+%d?:", i)
	}
}

// decode22 decodes a segment and compares every field.
func decode22(c *engine.Ctx, d decl22, v ver22, seg segment.Segment, direct bool, present []bool, upto int) {
	var want []string
	parts := []string{fmt.Sprintf("%s:7:%d:3", d.id, v.version)}
	for i, e := range v.elems[:upto] {
		val := ""
		if present[i] {
			val = value22(e.typ, i)
		}
		parts = append(parts, val)
		want = append(want, val)
	}
	raw := strings.Join(parts, "+") + "'"
	c.State(d.name + raw)
	c.Validated()
	c.Logf("%s %q", d.name, raw)
	var err error
	if p := engine.Guard(func() { err = seg.(segment.Unmarshaler).UnmarshalHBCI([]byte(raw)) }); p != "" {
		c.Fail("panic", "%s: %q: %s", d.name, raw, p)
	}
	if err != nil {
		c.Fail("error", "%s: %q: %v", d.name, raw, err)
	}
	h := seg.Header()
	if h.ID.Val() != d.id || h.Version.Val() != v.version || h.Position.Val() != 7 || h.ReferencingSegment() != 3 {
		c.Fail("header", "%s: %q is read as %q", d.name, raw, h.String())
	}
	st := reflect.ValueOf(seg).Elem()
	if !direct {
		st = st.Field(0).Elem().Elem()
	}
	if st.Type().Name() != v.typ {
		c.Fail("version", "%s: %q is read as %s", d.name, raw, st.Type())
	}
	for i, e := range v.elems {
		f := st.FieldByName(e.field)
		if i >= len(want) || want[i] == "" {
			if !f.IsNil() {
				c.Fail("absent", "%s: %q: element %d (%s) is absent and read as %v", d.name, raw, i+1, e.field, f.Interface())
			}
			continue
		}
		ref := make22[e.typ]()
		if err := ref.(segment.Unmarshaler).UnmarshalHBCI([]byte(want[i])); err != nil {
			panic(err)
		}
		if f.IsNil() || canon(f.Interface()) != canon(ref) {
			c.Fail("value", "%s: %q: element %d (%s) is read as %v, it is %q", d.name, raw, i+1, e.field, f.Interface(), want[i])
		}
	}
	// what is not listed stays as it was
	for i := 0; i < st.NumField(); i++ {
		n := st.Type().Field(i).Name
		listed := i == 0
		for _, e := range v.elems {
			listed = listed || e.field == n
		}
		if !listed && !st.Field(i).IsZero() {
			c.Fail("unlisted", "%s: %q: %s is no element and has been filled", d.name, raw, n)
		}
	}
}

func init() {
	engine.Register("C22", func(r *engine.Runner) {
		var results map[string]result22
		b, err := os.ReadFile(filepath.Join(os.Getenv("MC_GEN"), "results.json"))
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &results); err != nil {
			panic(err)
		}
		decls := decls22(r.Thorough())
		var made []decl22
		for _, d := range decls {
			if segment.VerifDecls[d.name] != nil {
				made = append(made, d)
			}
		}
		r.Explore("declarations", "every declaration of a segment of up to 3 (4) elements of three types, in every order, written in three ways; of up to 24 (60) elements; with other types, fields, comments and interfaces around; of up to three versions in every order; listed in unusual ways; and impossible ones: a decoder is made or the declaration is refused", -1, func(c *engine.Ctx) {
			d := decls[c.Choose(len(decls), "declaration")]
			res := results[d.name]
			c.State(d.name)
			c.Validated()
			c.Logf("%s\n%v\n-> %+v", d.src, d.args, res)
			switch {
			case strings.Contains(res.Output, "panic:"):
				c.Fail("generator-panic", "%s\n%v\n%s", d.src, d.args, res.Output)
			case d.mustRefuse && (res.RC == 0 || res.Written):
				c.Fail("accepted", "no decoder can be made of this, exit status %d, decoder written: %v, output %q\n%v\n%s", res.RC, res.Written, res.Output, d.args, d.src)
			case res.RC == 0 && !res.Written || res.RC != 0 && res.Written:
				c.Fail("status", "exit status %d, decoder written: %v, output %q\n%v\n%s", res.RC, res.Written, res.Output, d.args, d.src)
			case res.RC != 0 && strings.TrimSpace(res.Output) == "":
				c.Fail("silent", "refused without a word\n%v\n%s", d.args, d.src)
			case !d.mustRefuse && !d.mayRefuse && res.RC != 0:
				c.Fail("refused", "refused: %s\n%v\n%s", res.Output, d.args, d.src)
			}
		})
		r.Explore("generated decoders", "every generated decoder, by itself, by the segment that picks the version and by the index of segments: every combination of present, empty and left out elements (long segments: each one element empty), and versions that are not declared", -1, func(c *engine.Ctx) {
			d := made[c.Choose(len(made), "declaration")]
			k := c.Choose(len(d.vers), "version")
			v := d.vers[k]
			how := c.Choose(3, "read by")
			if d.parent == "" && how == 1 {
				return
			}
			present := make([]bool, len(v.elems))
			upto := len(v.elems)
			if len(v.elems) <= 4 {
				for i := range present {
					present[i] = c.Bool("present")
				}
			} else {
				hole := c.Choose(len(v.elems)+1, "hole")
				for i := range present {
					present[i] = i != hole-1
				}
			}
			if c.Bool("cut") {
				upto = c.Choose(len(v.elems)+1, "elements")
			}
			fromIndex := func() segment.Segment {
				id := segment.VersionedSegment{ID: d.id, Version: v.version}
				if !segment.KnownSegments.IsIndexed(id) {
					c.Fail("index", "%s is not in the index", id)
				}
				u, err := segment.KnownSegments.UnmarshalerForSegment(id)
				if err != nil {
					c.Fail("index", "%s: %v", id, err)
				}
				return u.(segment.Segment)
			}
			switch {
			case how == 0 && d.parent == "":
				decode22(c, d, v, segment.VerifDecls[d.name](), true, present, upto)
			case how == 1:
				decode22(c, d, v, segment.VerifDecls[d.name](), false, present, upto)
			case how == 2:
				s := fromIndex()
				decode22(c, d, v, s, true, present, upto)
				// another one is not the same
				if t := fromIndex(); reflect.ValueOf(s).Pointer() == reflect.ValueOf(t).Pointer() {
					c.Fail("shared", "%s: the index hands out the same segment twice", d.name)
				}
			}
		})
		r.Explore("undeclared versions", "every version from 0 to 12 that is not declared is refused by the segment that picks the version", -1, func(c *engine.Ctx) {
			var ps []decl22
			for _, d := range made {
				if d.parent != "" {
					ps = append(ps, d)
				}
			}
			d := ps[c.Choose(len(ps), "declaration")]
			version := c.Choose(13, "version")
			for _, v := range d.vers {
				if v.version == version {
					return
				}
			}
			raw := fmt.Sprintf("%s:7:%d:3+1'", d.id, version)
			c.State(d.name + raw)
			c.Validated()
			var err error
			if p := engine.Guard(func() {
				err = segment.VerifDecls[d.name]().(segment.Unmarshaler).UnmarshalHBCI([]byte(raw))
			}); p != "" {
				c.Fail("panic", "%s: %q: %s", d.name, raw, p)
			}
			if err == nil {
				c.Fail("undeclared", "%s: %q is read, there is no version %d", d.name, raw, version)
			}
		})
		var own []string
		for k := range results {
			if strings.HasPrefix(k, "/") {
				own = append(own, k)
			}
		}
		sort.Strings(own)
		r.Explore("own declarations", "every declaration in the repository that is marked for generation", -1, func(c *engine.Ctx) {
			if len(own) == 0 {
				return
			}
			k := own[c.Choose(len(own), "file")]
			res := results[k]
			c.State(k)
			c.Validated()
			c.Logf("%s -> %+v", k, res)
			// a declaration may be written in a way the generator does not
			// know, as long as it says so
			if res.RC == 0 && !res.Written || res.RC != 0 && res.Written || strings.Contains(res.Output, "panic:") {
				c.Fail("own-status", "%s: exit status %d, decoder written: %v, output %q", k, res.RC, res.Written, res.Output)
			}
		})
		// the decoders generated anew read what those in the repository read
		decoding(r, false)
	})
}
