package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/engine"
)

// refSplit is the reference for the wire grammar: it cuts msg at unescaped
// delimiters outside binary data.
type refElem struct {
	raw string
	sep byte // the delimiter that ended it
}

// refLex returns the elements of msg. bad: the grammar is violated and the
// message must be rejected. lenient: an unescaped @ inside a value, which the
// grammar forbids and a decoder may tolerate.
func refLex(msg string) (elems []refElem, bad, lenient bool) {
	i, start := 0, 0
	for i < len(msg) {
		if i == start && msg[i] == '@' {
			j := i + 1
			n := 0
			for j < len(msg) && msg[j] >= '0' && msg[j] <= '9' {
				n = n*10 + int(msg[j]-'0')
				if n > 1<<20 {
					n = 1 << 20
				}
				j++
			}
			if j == i+1 || j >= len(msg) || msg[j] != '@' {
				return elems, true, lenient
			}
			j++
			if j+n >= len(msg) {
				return elems, true, lenient
			}
			i = j + n
			if !(msg[i] == '+' || msg[i] == ':' || msg[i] == '\'') {
				return elems, true, lenient
			}
		}
		switch msg[i] {
		case '?':
			if i+1 >= len(msg) || !bytes.ContainsRune([]byte("?+:'@"), rune(msg[i+1])) {
				return elems, true, lenient
			}
			i += 2
		case '+', ':', '\'':
			elems = append(elems, refElem{msg[start:i], msg[i]})
			i++
			start = i
		case '@':
			lenient = true
			i++
		case 0:
			return elems, true, lenient
		default:
			i++
		}
	}
	if start != len(msg) {
		bad = true
	}
	return elems, bad, lenient
}

// malformedFloat: digits with a leading zero followed by a comma are no legal
// value of any type; a decoder may reject them.
func malformedFloat(raw string) bool {
	i := 0
	for i < len(raw) && raw[i] >= '0' && raw[i] <= '9' {
		i++
	}
	return i >= 2 && raw[0] == '0' && i < len(raw) && raw[i] == ','
}

func checkGrammar(c *engine.Ctx, msg string) {
	elems, bad, lenient := refLex(msg)
	tolerated := lenient
	for _, e := range elems {
		if malformedFloat(e.raw) {
			tolerated = true
		}
	}
	// a tail that is not terminated by a segment end is malformed as well
	if n := len(elems); n > 0 && elems[n-1].sep != '\'' {
		bad = true
	}
	var segs [][]byte
	var err error
	orig := []byte(msg)
	if p := engine.Guard(func() { segs, err = message.NewSegmentExtractor(orig).Extract() }); p != "" {
		c.Fail("panic:segments", "splitting %q panics: %s", msg, p)
	}
	c.Between()
	if string(orig) != msg {
		c.Fail("input-changed", "splitting %q changed the input to %q", msg, orig)
	}
	if c.Verbose() {
		c.Logf("message %q -> segments %q err=%v", msg, segs, err)
	}
	if err != nil {
		if !bad && !tolerated {
			c.Fail("rejects-valid", "the well-formed message %q is rejected: %v", msg, err)
		}
		c.State("rejected")
		return
	}
	if bad && !tolerated {
		c.Fail("accepts-malformed", "the malformed message %q is accepted as %q", msg, segs)
	}
	if joined := string(bytes.Join(segs, nil)); joined != msg {
		c.Fail("lossy-segments", "the segments of %q are %q: %q", msg, segs, joined)
	}
	if bad {
		return
	}
	k := 0
	shape := ""
	for _, seg := range segs {
		// expected elements of this segment
		var want [][]string
		var group []string
		end := false
		for k < len(elems) && !end {
			e := elems[k]
			k++
			group = append(group, e.raw)
			if e.sep != ':' {
				want = append(want, group)
				group = nil
			}
			end = e.sep == '\''
		}
		if !end {
			c.Fail("segment-count", "%q is split into too many segments %q", msg, segs)
		}
		des, err := segment.ExtractElements(seg)
		c.Between()
		if err != nil && len(want) == 1 && len(want[0]) == 1 && want[0][0] == "" {
			// a segment without any element may be refused: it lacks even the header
			shape += "|empty"
			continue
		}
		if err != nil {
			c.Fail("segment-elements-error", "elements of segment %q: %v", seg, err)
		}
		if c.Verbose() {
			c.Logf("  segment %q -> elements %q", seg, des)
		}
		// a trailing empty element is the same as an absent one
		for len(want) > len(des) && len(want[len(want)-1]) == 1 && want[len(want)-1][0] == "" {
			want = want[:len(want)-1]
		}
		if len(des) != len(want) {
			c.Fail("element-count", "segment %q has elements %q, extracted %q", seg, want, des)
		}
		shape += fmt.Sprint("|", len(des))
		for i, de := range des {
			var joined string
			for j, g := range want[i] {
				if j > 0 {
					joined += ":"
				}
				joined += g
			}
			if string(de) != joined {
				c.Fail("element-value", "element %d of segment %q is extracted as %q, it is %q", i, seg, de, joined)
			}
			keep := append([]byte(nil), de...)
			gs, err := element.ExtractElements(de)
			c.Between()
			if err != nil {
				c.Fail("group-elements-error", "group elements of %q: %v", keep, err)
			}
			if !bytes.Equal(keep, de) {
				c.Fail("group-input-changed", "extracting the group elements of %q changed it to %q", keep, de)
			}
			if len(gs) != len(want[i]) {
				c.Fail("group-count", "group %q has elements %q, extracted %q", de, want[i], gs)
			}
			for j, g := range gs {
				if string(g) != want[i][j] {
					c.Fail("group-value", "group element %d of %q is extracted as %q, it is %q", j, de, g, want[i][j])
				}
			}
			shape += fmt.Sprint(".", len(gs))
		}
	}
	if k != len(elems) {
		c.Fail("segments-missing", "%q: only %d of its elements appear in the segments %q", msg, k, segs)
	}
	c.State(shape)
	c.Validated()
}

func init() {
	engine.Register("C11", func(r *engine.Runner) {
		alpha := []byte("a1+:'?@0,")
		depth := r.Pick(6, 7)
		r.ExploreBetween("all-strings", fmt.Sprintf("every byte string up to length %d over %q", depth, alpha), 0, func(c *engine.Ctx) {
			n := c.Choose(depth+1, "len")
			b := make([]byte, 0, depth)
			for i := 0; i < n; i++ {
				b = append(b, alpha[c.Choose(len(alpha), "b")])
			}
			checkGrammar(c, string(b))
		})
		r.ExploreBetween("all-bytes", "every string of one and two arbitrary bytes, alone, inside a value and before a delimiter", 0, func(c *engine.Ctx) {
			b := []byte{byte(c.Choose(256, "b0"))}
			if c.Bool("two") {
				b = append(b, byte(c.Choose(256, "b1")))
			}
			s := string(b)
			checkGrammar(c, engine.Of(c, "frame", s, s+"'", "A:1:1+x"+s+"y+z'", "A:1:1+"+s+"'B:2:1'"))
		})
		vals := []string{"", "a", "12", "0", "007", "0,5", "3,", "?+", "?:", "?'", "??", "?@", "x?'y", "??+", "@0@", "@1@'", "@5@+:'?@", "@3@@1@", "@2@?+", "a\r\nb", "\xe4", "@2@\x00\x00", "@10@ABCDEFGHIJ", "-@", " ", "???'"}
		slots := r.Pick(3, 4)
		r.ExploreBetween("structured", fmt.Sprintf("every message of one segment header and %d values from a menu of %d, each followed by each delimiter", slots, len(vals)), 0, func(c *engine.Ctx) {
			var b bytes.Buffer
			b.WriteString("HIRMG:2:2:1+")
			for i := 0; i < slots; i++ {
				b.WriteString(vals[c.Choose(len(vals), "v")])
				if i < slots-1 {
					b.WriteByte("+:'"[c.Choose(3, "sep")])
				} else {
					b.WriteByte('\'')
				}
			}
			checkGrammar(c, b.String())
		})
		r.ExploreBetween("binary-lengths", "binary elements of every length 0..300 filled with each syntax byte, with the announced length off by -1, 0, +1 and followed by another segment", 0, func(c *engine.Ctx) {
			n := c.Choose(301, "n")
			fill := "+:'?@\x00a"[c.Choose(7, "fill")]
			off := c.Choose(3, "off") - 1
			if n+off < 0 {
				c.Stop()
			}
			data := bytes.Repeat([]byte{fill}, n)
			checkGrammar(c, fmt.Sprintf("HNVSD:999:1+@%d@%s'HNHBS:4:1+2'", n+off, data))
		})
		many := r.Pick(300, 1100)
		r.Explore("counts", fmt.Sprintf("messages of every number of segments, of elements of a segment, and of members of an element, up to %d, plain, empty, escaped, binary or all in turn", many), 0, func(c *engine.Ctx) {
			n := 1 + c.Choose(many, "count")
			vals := []string{"a", "", "?+?:?'", "@5@+:'?@", "12"}
			k := c.Choose(len(vals)+1, "value")
			val := func(i int) string {
				if k < len(vals) {
					return vals[k]
				}
				return vals[i%len(vals)]
			}
			var b strings.Builder
			switch engine.Of(c, "what", "segments", "elements", "members") {
			case "segments":
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "HIAAS:%d:1+%s:x+%s'", i+1, val(i), val(i+1))
				}
			case "elements":
				b.WriteString("HIAAS:1:1")
				for i := 0; i < n; i++ {
					b.WriteString("+" + val(i))
				}
				b.WriteString("+z'HNHBS:2:1+1'")
			case "members":
				b.WriteString("HIAAS:1:1+y+x")
				for i := 0; i < n; i++ {
					b.WriteString(":" + val(i))
				}
				b.WriteString(":w+z'HNHBS:2:1+1'")
			}
			checkGrammar(c, b.String())
		})
		r.Explore("long-values", "binary elements and texts whose length is around each power of ten and two up to 10^6, filled with each syntax byte", 0, func(c *engine.Ctx) {
			base := engine.Of(c, "base", 1<<9, 1000, 1<<10, 4000, 1<<12, 10000, 1<<14, 1<<15, 1<<16, 100000, 1000000)
			n := base + c.Choose(5, "off") - 2
			var v string
			if c.Bool("text") {
				v = strings.Repeat(engine.Of(c, "unit", "a", "1", "?+", " ", "0"), n)
			} else {
				v = fmt.Sprintf("@%d@%s", n, strings.Repeat(engine.Of(c, "fill", "+", ":", "'", "?", "@", "\x00", "a"), n))
			}
			checkGrammar(c, "HIKAZ:4:5:3+"+v+"+x'HNHBS:4:1+2'")
		})
	})
}
