package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

// C13: whatever a bank answers, the library decodes it or reports an error.

// a target is a segment with regular contents, taken apart.
type target struct {
	id      string
	version int
	groups  [][]string // the elements and their members
	wrap    func() segment.Unmarshaler
}

func usual(fs []fdef) []string {
	var w []string
	for _, f := range fs {
		if f.sub != nil {
			w = append(w, strings.Join(usual(f.sub), ":"))
			continue
		}
		w = append(w, kinds[f.kind][0].w)
	}
	return w
}

func targets() []target {
	var ts []target
	add := func(id string, version int, body []string, wrap func() segment.Unmarshaler) {
		t := target{id: id, version: version, wrap: wrap}
		for _, e := range body {
			t.groups = append(t.groups, splitMembers(e))
		}
		ts = append(ts, t)
	}
	for _, d := range segDefs() {
		add(d.id, d.version, usual(d.fields), d.wrap)
	}
	ps := append(usual(parseFields("A=jn B=jn C=code")), usual(parseFields(hitansProcess))...)
	add("HITANS", 6, []string{"1", "1", "0", strings.Join(ps, ":")}, nil)
	two := append(append([]string{}, ps...), usual(parseFields(hitansProcess))...)
	add("HITANS", 6, []string{"1", "1", "0", strings.Join(two, ":")}, nil)
	add("HIRMG", 2, []string{kinds["ack"][0].w, kinds["ack"][2].w}, nil)
	add("HIRMS", 2, []string{kinds["ack"][3].w, kinds["ack"][1].w}, nil)
	add("HISALS", 6, []string{"1", "1", "0"}, nil)
	add("HIKOM", 3, []string{"280:10020030", "1", "2:host", "3:user:x"}, nil)
	add("HIUPD", 6, []string{"1::280:2", "DE1", "u", "1", "EUR", "n", "", "", "", "HKA:1", "HKB:2:T:1,:EUR", "{}"}, nil)
	add("HISHV", 3, []string{"J", "RDH:1:2", "DDV:1"}, nil)
	add("HIPRO", 3, []string{"a:1", "3", "20150812", "101112", "0010::ok"}, nil)
	return ts
}

// splitMembers takes an element apart; what is binary stays whole.
func splitMembers(e string) []string {
	if strings.HasPrefix(e, "@") {
		return []string{e}
	}
	var out []string
	cur := ""
	for i := 0; i < len(e); i++ {
		switch {
		case e[i] == '?' && i+1 < len(e):
			cur += e[i : i+2]
			i++
		case e[i] == '@':
			k := i + 1 + strings.IndexByte(e[i+1:], '@')
			n := 0
			fmt.Sscan(e[i+1:k], &n)
			cur += e[i : k+1+n]
			i = k + n
		case e[i] == ':':
			out = append(out, cur)
			cur = ""
		default:
			cur += e[i : i+1]
		}
	}
	return append(out, cur)
}

var damage = []string{"", "x", "0", "-1", "1", "99999999999999999999", "1,", ",", "J", "20150231", "246060", "@0@", "@3@abc", "@9@x", "@", "?", "??", "a:b", ":", "::::::::::::::::::::::::::", "1:2:3:4:5:6:7:8:9:10:11:12:13:14:15:16:17:18:19:20:21:22:23:24:25:26", "+", "++++++++++++++++", "'", "\x00", "\xff", "HKSAL:1:T:1,:EUR", "HKSAL:x", "-", "1e5", "0x1", " "}

// damaged applies up to the allowed number of deviations to a segment.
func (t target) damaged(c *engine.Ctx, damage []string) string {
	var w []string
	for i, g := range t.groups {
		lbl := fmt.Sprintf("element %d", i+1)
		// the element as a whole
		if len(g) > 1 {
			k := c.Dev(1+len(damage)+len(g), lbl)
			if k > 0 && k <= len(damage) {
				w = append(w, damage[k-1])
				continue
			}
			if k > len(damage) { // cut after some members
				g = g[:k-len(damage)-1]
			}
		}
		var ms []string
		for j, m := range g {
			k := c.Dev(1+len(damage), fmt.Sprintf("%s.%d", lbl, j+1))
			if k > 0 {
				m = damage[k-1]
			}
			ms = append(ms, m)
		}
		w = append(w, strings.Join(ms, ":"))
	}
	if k := c.Dev(len(w)+2, "elements"); k > 0 {
		if k <= len(w) {
			w = w[:k-1]
		} else {
			w = append(w, "x", "1", "a:b")
		}
	}
	return strings.Join(w, "+")
}

// some of it, for pairs of damages
var someDamage = []string{"", "x", "0", "99999999999999999999", "@3@abc", "a:b:c", ":", "+", " ", "-1"}

var quietMethods = map[string]bool{"SetNumber": true, "SetReference": true}

// readAll calls everything a segment offers for reading.
func readAll(c *engine.Ctx, what, raw string, s any) {
	v := reflect.ValueOf(s)
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 || !m.IsExported() || quietMethods[m.Name] {
			continue
		}
		if p := engine.Guard(func() { v.Method(i).Call(nil) }); p != "" {
			c.Fail("read:"+frame(p)+":"+m.Name, "%q is decoded, but %s panics: %s", raw, m.Name, p)
		}
	}
}

func decodeAll(c *engine.Ctx, what, raw string) *message.Unmarshaler {
	u := message.NewUnmarshaler([]byte(raw))
	var err error
	if p := engine.Guard(func() { err = u.Unmarshal() }); p != "" {
		c.Fail("decode:"+frame(p), "%q: %s", raw, p)
	}
	c.Validated()
	c.Logf("%q: %v", raw, err)
	if err != nil {
		return nil
	}
	return u
}

func init() {
	engine.Register("C13", func(r *engine.Runner) {
		answersC13(r)
		ts := targets()
		damagedSegments := func(name string, devs int, damage []string) {
			r.Explore(name, fmt.Sprintf("each of %d kinds of segment with at most %d damages: an element or a member replaced by one of %d contents, members or elements cut off or appended; decoded in a message and by itself, and everything it offers read", len(ts), devs, len(damage)), devs, func(c *engine.Ctx) {
				t := ts[c.Choose(len(ts), "segment")]
				what := fmt.Sprintf("%s%d", t.id, t.version)
				body := t.damaged(c, damage)
				c.State(what + body)
				raw := fmt.Sprintf("%s:3:%d:4+%s'", t.id, t.version, body)
				if u := decodeAll(c, what, "HIXXX:1:1+1'"+raw+"HIYYY:5:1+2'"); u != nil {
					for _, s := range u.SegmentsByID(t.id) {
						readAll(c, what, raw, s)
					}
				}
				if t.wrap == nil {
					return
				}
				w := t.wrap()
				var err error
				if p := engine.Guard(func() { err = w.UnmarshalHBCI([]byte(raw)) }); p != "" {
					c.Fail("decode:"+frame(p), "%q: %s", raw, p)
				}
				if err == nil {
					readAll(c, what, raw, w)
				}
			})
		}
		damagedSegments("one damage", 1, damage)
		damagedSegments("several damages", r.Pick(2, 3), someDamage)
		if r.Thorough() {
			damagedSegments("two damages", 2, damage)
		}
		heads := []string{"", ":", "HIRMG", "HIRMG:", "HISAL", "x", "@3@abc", "@9@", "?", "HIRMG?:2:2", "'"}
		nums := []string{"", "0", "2", "-1", "x", "99999999999999999999", "@1@1"}
		if r.Thorough() {
			nums = append(nums, "1", "?:")
		}
		r.Explore("segment heads", "heads with up to five members, each from a list of contents", -1, func(c *engine.Ctx) {
			h := heads[c.Choose(len(heads), "id")]
			for n, i := c.Choose(5, "further members"), 0; i < n; i++ {
				h += ":" + nums[c.Choose(len(nums), "member")]
			}
			raw := h + engine.Of(c, "tail", "", "+", "+0010::ok'", "'", "+a'HIRMG:1:2+0020::x'")
			c.State(raw)
			decodeAll(c, "head", raw)
			for _, w := range wrappers() {
				w := w()
				if p := engine.Guard(func() { w.UnmarshalHBCI([]byte(raw)) }); p != "" {
					c.Fail("decode:"+frame(p), "%q: %T: %s", raw, w, p)
				}
			}
		})
		short := r.Pick(5, 6)
		alphabet := []byte("+:'?@1JA,0")
		r.Explore("short contents", fmt.Sprintf("every content of up to %d characters of %q, for each segment the library reads, alone and as a whole message", short, alphabet), -1, func(c *engine.Ctx) {
			var b bytes.Buffer
			for i := 0; i < short; i++ {
				k := c.Choose(len(alphabet)+1, "character")
				if k == 0 {
					break
				}
				b.WriteByte(alphabet[k-1])
			}
			c.State(b.String())
			decodeAll(c, "bytes", b.String())
			for _, t := range ts {
				what := fmt.Sprintf("%s%d", t.id, t.version)
				raw := fmt.Sprintf("%s:3:%d+%s", t.id, t.version, b.String())
				if u := decodeAll(c, what, raw); u != nil {
					for _, s := range u.SegmentsByID(t.id) {
						readAll(c, what, raw, s)
					}
				}
			}
		})
	})
}

func wrappers() []func() segment.Unmarshaler {
	var ws []func() segment.Unmarshaler
	seen := map[string]bool{}
	for _, d := range segDefs() {
		if d.wrap != nil && !seen[d.id] {
			seen[d.id] = true
			ws = append(ws, d.wrap)
		}
	}
	return ws
}

// frame is where in the library a panic arose.
func frame(p string) string {
	if i := strings.LastIndex(p, "@ "); i >= 0 {
		p = p[i+2:]
	}
	return p[strings.LastIndex(p, "/")+1:]
}
