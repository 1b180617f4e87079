package props

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/mitch000001/go-hbci/charset"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	middleware "github.com/mitch000001/go-hbci/transport/middleware"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
)

// chunked delivers data in pieces and then err (io.EOF unless set).
type chunked struct {
	data    []byte
	size    int
	withErr bool // the last piece comes together with the error
	err     error
	closed  *int
}

func (r *chunked) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := r.size
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.withErr {
		return n, r.err
	}
	return n, nil
}

func (r *chunked) Close() error {
	if r.closed != nil {
		*r.closed++
	}
	return nil
}

var errBroken = errors.New("connection broken")

// reader chooses how data is delivered.
func reader(c *engine.Ctx, data []byte, fault bool) (io.ReadCloser, bool) {
	size := engine.Of(c, "chunk", 1<<20, 1, 7)
	rd := &chunked{data: data, size: size, err: io.EOF}
	if fault {
		rd.err = errBroken
	}
	rd.withErr = c.Bool("errWithData")
	return rd, fault
}

type mwStack struct {
	name string
	mw   []transport.Middleware
	enc  func([]byte) []byte // what the bank's side sees
}

func stacks() []mwStack {
	b64 := func(e *base64.Encoding) func([]byte) []byte {
		return func(b []byte) []byte { return []byte(e.EncodeToString(b)) }
	}
	id := func(b []byte) []byte { return b }
	lat := func(b []byte) []byte { return []byte(latin1(string(b))) }
	quiet := func() transport.Middleware {
		return middleware.Logging(log.New(io.Discard, "", 0), nil)
	}
	return []mwStack{
		{"none", nil, id},
		{"base64", []transport.Middleware{middleware.Base64Encoding(base64.StdEncoding)}, b64(base64.StdEncoding)},
		{"base64url", []transport.Middleware{middleware.Base64Encoding(base64.RawURLEncoding)}, b64(base64.RawURLEncoding)},
		{"logging", []transport.Middleware{quiet()}, id},
		{"base64+logging", []transport.Middleware{quiet(), middleware.Base64Encoding(base64.StdEncoding)}, b64(base64.StdEncoding)},
		{"logging+base64", []transport.Middleware{middleware.Base64Encoding(base64.StdEncoding), quiet()}, b64(base64.StdEncoding)},
		{"nop", []transport.Middleware{middleware.UTF8Encoding(encoding.Nop)}, id},
		{"latin1", []transport.Middleware{middleware.UTF8Encoding(charmap.ISO8859_1)}, lat},
		{"latin1+base64", []transport.Middleware{middleware.UTF8Encoding(charmap.ISO8859_1), middleware.Base64Encoding(base64.StdEncoding)}, func(b []byte) []byte { return b64(base64.StdEncoding)(lat(b)) }},
	}
}

// body is text with characters of one and two bytes, or arbitrary bytes.
func bodyOf(n int, kind int) []byte {
	switch kind {
	case 0:
		return []byte(strings.Repeat("HNHBK:1:3+000000000125'", n/22+1)[:n])
	case 1:
		return []byte(strings.Repeat("ä", n))
	case 2:
		return []byte(strings.Repeat("aß+", n/3+1)[:n-n%4])
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	return b
}

func checkStack(c *engine.Ctx, st mwStack, req, res []byte, others int) {
	otherAt := c.Choose(others, "another request") // 0 none 1 before 2, 3 within the exchange 4 before the response is read
	faultAt := c.Choose(4, "fault")                // 0 none 1 request body 2 transport 3 response body
	var sent []byte
	var sentURL string
	calls := 0
	var t transport.Transport
	other := func() {
		out, err := t.Do(&transport.Request{URL: "other", Body: io.NopCloser(strings.NewReader("another request"))})
		var got []byte
		if err == nil {
			got, err = io.ReadAll(out.Body)
		}
		if err != nil || string(got) != "another response, longer" {
			c.Fail("other", "%s: the response to another request (%d) arrives as %q, error %v", st.name, otherAt, got, err)
		}
	}
	var inner transport.Transport = transport.Func(func(r *transport.Request) (*transport.Response, error) {
		if r.URL == "other" {
			b, err := io.ReadAll(r.Body)
			if err != nil || !bytes.Equal(b, st.enc([]byte("another request"))) {
				c.Fail("other", "%s: another request (%d) is sent as %q, error %v", st.name, otherAt, b, err)
			}
			return &transport.Response{Body: io.NopCloser(bytes.NewReader(st.enc([]byte("another response, longer")))), Request: r}, nil
		}
		calls++
		if otherAt == 2 {
			other()
		}
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		sent, sentURL = b, r.URL
		if otherAt == 3 {
			other()
		}
		c.Between()
		if faultAt == 2 {
			return nil, errBroken
		}
		rd, _ := reader(c, st.enc(res), faultAt == 3)
		return &transport.Response{Body: rd, Request: r}, nil
	})
	t = inner
	for i := len(st.mw) - 1; i >= 0; i-- {
		t = st.mw[i](t)
	}
	if otherAt == 1 {
		other()
	}
	rd, _ := reader(c, req, faultAt == 1)
	in := &transport.Request{URL: "https://bank.example/hbci", Body: rd}
	var out *transport.Response
	var err error
	if p := engine.Guard(func() { out, err = t.Do(in) }); p != "" {
		c.Fail("panic:"+st.name, "%s: request %q, response %q: %s", st.name, req, res, p)
	}
	c.Between()
	if otherAt == 4 {
		other()
	}
	var got []byte
	if err == nil {
		if out == nil || out.Body == nil {
			c.Fail("no-response", "%s returns neither a response nor an error", st.name)
		}
		got, err = io.ReadAll(out.Body)
	}
	if c.Verbose() {
		c.Logf("%s fault=%d: sent %d bytes in %d calls, got %d bytes, error %v", st.name, faultAt, len(sent), calls, len(got), err)
	}
	if faultAt != 0 {
		if err == nil {
			c.Fail("fault-swallowed", "%s: a fault (%d) while sending %d and receiving %d bytes is not reported", st.name, faultAt, len(req), len(res))
		}
		if !errors.Is(err, errBroken) {
			c.Fail("fault-changed", "%s: the fault (%d) is reported as %v", st.name, faultAt, err)
		}
		if faultAt == 1 && calls != 0 && !bytes.HasPrefix(st.enc(req), sent) {
			c.Fail("sent-garbage", "%s: after a fault %q is sent", st.name, sent)
		}
		c.State(st.name + fmt.Sprint(faultAt))
		return
	}
	if err != nil {
		c.Fail("error", "%s: request of %d, response of %d bytes: %v", st.name, len(req), len(res), err)
	}
	if calls != 1 || sentURL != in.URL {
		c.Fail("calls", "%s: %d exchanges, address %q", st.name, calls, sentURL)
	}
	if !bytes.Equal(sent, st.enc(req)) {
		c.Fail("sent", "%s: %q is sent as %q", st.name, req, sent)
	}
	if !bytes.Equal(got, res) {
		c.Fail("received", "%s: response %q arrives as %q", st.name, res, got)
	}
	c.State(fmt.Sprint(st.name, len(req), len(res)))
	c.Validated()
}

// fakeHTTP is the network.
type fakeHTTP struct {
	fn func(*http.Request) (*http.Response, error)
}

func (f fakeHTTP) RoundTrip(r *http.Request) (*http.Response, error) { return f.fn(r) }

func init() {
	engine.Register("C18", func(r *engine.Runner) {
		sts := stacks()
		maxLen := r.Pick(40, 120)
		r.ExploreBetween("stacks", fmt.Sprintf("%d stacks of middlewares, requests and responses of every length 0..%d in four kinds of content, three ways of delivering them in pieces, with a fault at no or each of three points, with another request over the same stack at no or each of four points", len(sts), maxLen), 0, func(c *engine.Ctx) {
			st := sts[c.Choose(len(sts), "stack")]
			kinds := 4
			if strings.Contains(st.name, "latin1") {
				kinds = 3
			}
			n, k := c.Choose(maxLen+1, "len"), c.Choose(kinds, "kind")
			req, res := bodyOf(n, k), bodyOf(maxLen-n, k)
			checkStack(c, st, req, res, 5)
		})
		sizes := []int{510, 511, 512, 513, 768, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 100001, 1<<20 + 1}
		r.Explore("sizes", fmt.Sprintf("the same with bodies of %v bytes", sizes), 0, func(c *engine.Ctx) {
			st := sts[c.Choose(len(sts), "stack")]
			kinds := 4
			if strings.Contains(st.name, "latin1") {
				kinds = 3
			}
			n, k := sizes[c.Choose(len(sizes), "size")], c.Choose(kinds, "kind")
			checkStack(c, st, bodyOf(n, k), bodyOf(n+3, k), 1)
		})
		r.Explore("http", "the two HTTP transports with every body length 0..60, status 200 and others, and a fault at every point: method, address, media type, body in both directions", 0, func(c *engine.Ctx) {
			b64 := c.Bool("base64")
			n := c.Choose(61, "len")
			req, res := bodyOf(n, c.Choose(4, "kind")), bodyOf(60-n, 3)
			status := engine.Of(c, "status", 200, 400, 500)
			fault := c.Choose(3, "fault")
			var sent []byte
			var hr *http.Request
			calls := 0
			cl := &http.Client{Transport: fakeHTTP{func(h *http.Request) (*http.Response, error) {
				calls++
				hr = h
				if h.Body != nil {
					b, err := io.ReadAll(h.Body)
					if err != nil {
						return nil, err
					}
					sent = b
				}
				if fault == 1 {
					return nil, errBroken
				}
				payload := res
				if b64 && status == 200 {
					payload = []byte(base64.StdEncoding.EncodeToString(res))
				}
				rd, _ := reader(c, payload, fault == 2)
				return &http.Response{StatusCode: status, Body: rd, Header: http.Header{}}, nil
			}}}
			var t transport.Transport
			if b64 {
				t = newBase64With(cl)
			} else {
				t = https.NewNonDefault(cl)
			}
			out, err := t.Do(&transport.Request{URL: "https://bank.example/hbci?x=1", Body: io.NopCloser(bytes.NewReader(req))})
			var got []byte
			if err == nil {
				got, err = io.ReadAll(out.Body)
			}
			if fault != 0 {
				if !errors.Is(err, errBroken) {
					c.Fail("http-fault", "a fault (%d) ends in error %v", fault, err)
				}
				c.State(fmt.Sprint("fault", fault))
				return
			}
			if err != nil && status == 200 {
				c.Fail("http-error", "status %d: %v", status, err)
			}
			if calls != 1 || hr.Method != "POST" || hr.URL.String() != "https://bank.example/hbci?x=1" || hr.Header.Get("Content-Type") != "application/vnd.hbci" {
				c.Fail("http-request", "%d requests, %s %s %q", calls, hr.Method, hr.URL, hr.Header.Get("Content-Type"))
			}
			want := string(req)
			if b64 {
				want = base64.StdEncoding.EncodeToString(req)
			}
			if string(sent) != want {
				c.Fail("http-sent", "%q is sent as %q", req, sent)
			}
			if err == nil && !bytes.Equal(got, res) {
				c.Fail("http-received", "status %d: %q arrives as %q", status, res, got)
			}
			c.State(fmt.Sprint(b64, n, status))
			c.Validated()
		})
		r.Explore("unencodable", "texts with characters the encoding lacks, at every position: the request is not sent", 0, func(c *engine.Ctx) {
			n := c.Choose(20, "n")
			pos := c.Choose(n+1, "pos")
			text := strings.Repeat("ä", pos) + engine.Of(c, "char", "€", "\u0141", "\U0001F600") + strings.Repeat("b", n-pos)
			calls := 0
			t := middleware.UTF8Encoding(charmap.ISO8859_1)(transport.Func(func(r *transport.Request) (*transport.Response, error) {
				calls++
				return &transport.Response{Body: io.NopCloser(strings.NewReader("")), Request: r}, nil
			}))
			rd, _ := reader(c, []byte(text), false)
			_, err := t.Do(&transport.Request{URL: "x", Body: rd})
			if err == nil || calls != 0 {
				c.Fail("unencodable", "%q: %d exchanges, error %v", text, calls, err)
			}
			c.State(text)
		})
		r.Explore("wrapped", "Base64 responses with line breaks at every pair of positions, and damaged ones", 0, func(c *engine.Ctx) {
			res := bodyOf(20, c.Choose(4, "kind"))
			e := base64.StdEncoding.EncodeToString(res)
			damaged := false
			switch c.Choose(3, "how") {
			case 0:
				i := c.Choose(len(e)+1, "i")
				j := i + c.Choose(len(e)+1-i, "j")
				n := engine.Of(c, "nl", "\n", "\r\n")
				e = e[:i] + n + e[i:j] + n + e[j:]
			case 1:
				i := c.Choose(len(e), "i")
				e = e[:i] + string("*<-"[c.Choose(3, "b")]) + e[i+1:]
				damaged = true
			case 2:
				i := c.Choose(len(e)/4, "i")
				e = e[:i*4+1+c.Choose(3, "k")]
				damaged = true
			}
			t := middleware.Base64Encoding(base64.StdEncoding)(transport.Func(func(r *transport.Request) (*transport.Response, error) {
				rd, _ := reader(c, []byte(e), false)
				return &transport.Response{Body: rd, Request: r}, nil
			}))
			out, err := t.Do(&transport.Request{URL: "x", Body: io.NopCloser(strings.NewReader("y"))})
			var got []byte
			if err == nil {
				got, err = io.ReadAll(out.Body)
			}
			if damaged && err == nil {
				c.Fail("damage-accepted", "the damaged response %q is read as %q", e, got)
			}
			if !damaged && (err != nil || !bytes.Equal(got, res)) {
				c.Fail("wrapped", "the response %q is read as %q, error %v", e, got, err)
			}
			c.State(e)
			c.Validated()
		})
		r.Explore("read-response", "messages of every grammar of two segments delivered in pieces: a response carries the bytes unchanged and finds the segments; broken ones are errors", 0, func(c *engine.Ctx) {
			vals := []string{"", "a", "?+", "?'x", "@3@+'?", "@9@zz", "x@", "ä"}
			msg := ""
			for i := 0; i < 2; i++ {
				msg += engine.Of(c, "id", "HNHBK:1:3", "HNVSK:998:3", "HIRMG:2:2:1") + "+" + vals[c.Choose(len(vals), "v")] + "+" + vals[c.Choose(len(vals), "v")] + engine.Of(c, "end", "'", "", "?'")
			}
			fault := c.Bool("fault")
			rd, _ := reader(c, []byte(msg), fault)
			req := &transport.Request{URL: "x"}
			var out *transport.Response
			var err error
			if p := engine.Guard(func() { out, err = transport.ReadResponse(bufio.NewReader(rd), req) }); p != "" {
				c.Fail("panic:read", "%q: %s", msg, p)
			}
			if fault {
				if err == nil {
					c.Fail("read-fault", "a broken connection is not reported")
				}
				return
			}
			elems, bad, lenient := refLex(msg)
			if n := len(elems); n > 0 && elems[n-1].sep != '\'' {
				bad = true
			}
			if err != nil {
				if !bad && !lenient {
					c.Fail("read-error", "%q: %v", msg, err)
				}
				return
			}
			if bad && !lenient {
				c.Fail("read-accepts", "%q is accepted", msg)
			}
			b, berr := io.ReadAll(out.Body)
			if string(b) != msg || berr != nil || string(out.MarshaledResponse) != msg || out.Request != req {
				c.Fail("read-bytes", "%q arrives as %q and %q", msg, b, out.MarshaledResponse)
			}
			if p := engine.Guard(func() {
				// quoted delimiters and binary data are the business of C11
				plain := !lenient && !strings.ContainsAny(msg, "?@")
				if plain && out.IsEncrypted() != strings.Contains("'"+msg, "'HNVSK") {
					c.Fail("read-encrypted", "%q counts as encrypted: %v", msg, out.IsEncrypted())
				}
			}); p != "" {
				c.Fail("panic:encrypted", "%q: %s", msg, p)
			}
			c.State(msg)
			c.Validated()
		})
	})

	engine.Register("C19", func(r *engine.Runner) {
		check := func(c *engine.Ctx, b []byte) {
			var s string
			var back []byte
			if p := engine.Guard(func() { s = charset.ToUTF8(b); back = charset.ToISO8859_1(s) }); p != "" {
				c.Fail("panic", "%q: %s", b, p)
			}
			c.Between()
			want := make([]rune, len(b))
			for i, x := range b {
				want[i] = rune(x)
			}
			if s != string(want) {
				c.Fail("decode", "%q is decoded as %q", b, s)
			}
			if !bytes.Equal(back, b) {
				c.Fail("encode", "%q is encoded as %q", s, back)
			}
			c.StateBytes(b)
			c.Validated()
		}
		n := r.Pick(2, 3)
		r.ExploreBetween("bytes", fmt.Sprintf("every string of up to %d bytes", n), 0, func(c *engine.Ctx) {
			b := make([]byte, c.Choose(n+1, "n"))
			for i := range b {
				b[i] = byte(c.Choose(256, "b"))
			}
			check(c, b)
		})
		r.ExploreBetween("long", "every byte value at every position of strings of every length up to 40, and of 100, 4096 and 65536 bytes", 0, func(c *engine.Ctx) {
			k := c.Choose(44, "len")
			n := k
			if k > 40 {
				n = []int{100, 4096, 65536}[k-41]
			}
			if n == 0 {
				c.Stop()
			}
			b := bytes.Repeat([]byte{engine.Of(c, "fill", byte('a'), byte(0xe4), byte(0))}, n)
			pos := n - 1
			if n <= 40 {
				pos = c.Choose(n, "pos")
			}
			b[pos] = byte(c.Choose(256, "b"))
			check(c, b)
		})
		r.Explore("code-points", "every Unicode code point: the ones up to U+00FF become that byte, any other is refused and never replaced", 0, func(c *engine.Ctx) {
			hi := c.Choose(0x110000>>8, "hi")
			cp := rune(hi<<8 | c.Choose(256, "lo"))
			if cp >= 0xd800 && cp < 0xe000 {
				c.Stop()
			}
			var got []byte
			in := engine.Of(c, "frame", "", "a") + string(cp)
			p := engine.Guard(func() { got = charset.ToISO8859_1(in) })
			if cp <= 0xff {
				if p != "" || got[len(got)-1] != byte(cp) {
					c.Fail("code-point", "%q is encoded as %q %s", in, got, p)
				}
			} else if p == "" {
				c.Fail("replaced", "%q is encoded as %q", in, got)
			}
			if cp%4096 == 0 || cp < 256 {
				c.State(string(cp))
			}
		})
	})

	engine.Register("C21", func(r *engine.Runner) {
		first := r.Pick(1999, 1900)
		years := r.Pick(12, 201)
		days := int(day(first+years, 1, 1).Sub(day(first, 1, 1)).Hours() / 24)
		loc := []*time.Location{time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -12*3600)}
		r.ExploreBetween("dates", fmt.Sprintf("every day of %d years from %d, made from six times of day in three time zones, written and read as JSON (by value, by pointer, inside a structure) and as text", years, first), 0, func(c *engine.Ctx) {
			d := day(first, 1, 1).AddDate(0, 0, c.Choose(days, "day"))
			l := loc[c.Choose(3, "zone")]
			tod := engine.Of(c, "time", 0, 1, 3599, 43200, 86399)
			src := time.Date(d.Year(), d.Month(), d.Day(), 0, 0, tod, 999, l)
			sd := domain.NewShortDate(src)
			if !sd.Time.Equal(d) || sd.Hour()+sd.Minute()+sd.Second()+sd.Nanosecond() != 0 {
				c.Fail("new", "the date of %s is %s", src, sd.Time)
			}
			if dd := domain.Date(d.Year(), d.Month(), d.Day(), l); !dd.Time.Equal(d) {
				c.Fail("date", "Date of %s is %s", d, dd.Time)
			}
			want := `"` + d.Format("2006-01-02") + `"`
			type box struct{ D domain.ShortDate }
			for i, f := range []func() ([]byte, error){
				func() ([]byte, error) { return json.Marshal(&sd) },
				func() ([]byte, error) { return json.Marshal(sd) },
				func() ([]byte, error) {
					b, err := json.Marshal(box{sd})
					return bytes.TrimSuffix(bytes.TrimPrefix(b, []byte(`{"D":`)), []byte("}")), err
				},
			} {
				b, err := f()
				c.Between()
				if err != nil || string(b) != want {
					c.Fail(fmt.Sprint("json-", i), "%s is written as %s, error %v", d, b, err)
				}
				var back domain.ShortDate
				if err := json.Unmarshal(b, &back); err != nil || !back.Time.Equal(d) {
					c.Fail("json-read", "%s is read as %s, error %v", b, back.Time, err)
				}
			}
			tx, err := sd.MarshalText()
			c.Between()
			var back domain.ShortDate
			if err != nil || back.UnmarshalText(tx) != nil || !back.Time.Equal(d) || sd.String() != d.Format("2006-01-02") {
				c.Fail("text", "%s is written as %s, read as %s", d, tx, back.Time)
			}
			c.State(want)
			c.Validated()
		})
		r.Explore("zero", "the missing date and every timeframe of present and missing dates", 0, func(c *engine.Ctx) {
			var z, back domain.ShortDate
			b, err := json.Marshal(&z)
			if err == nil {
				err = json.Unmarshal(b, &back)
			}
			if err != nil || !back.IsZero() {
				c.Fail("zero-date", "the missing date is written as %s and read as %s, error %v", b, back.Time, err)
			}
			tf := domain.Timeframe{}
			if c.Bool("start") {
				tf.StartDate = domain.ShortDate{Time: day(2016, 2, 29)}
			}
			if c.Bool("end") {
				tf.EndDate = domain.ShortDate{Time: day(2017, 1, 1)}
			}
			if tf.IsZero() != (tf.StartDate.IsZero() && tf.EndDate.IsZero()) {
				c.Fail("zero-frame", "%v counts as zero: %v", canon(tf), tf.IsZero())
			}
			var bk domain.Timeframe
			b, err = json.Marshal(&tf)
			if err == nil {
				err = json.Unmarshal(b, &bk)
			}
			if err != nil {
				c.Fail("zero-frame-json", "%s is written as %s: %v", canon(tf), b, err)
			}
			if !tf.StartDate.IsZero() && !tf.EndDate.IsZero() && canon(bk) != canon(tf) {
				c.Fail("zero-frame-json", "%s is written as %s, read as %s", canon(tf), b, canon(bk))
			}
			c.State(string(b))
		})
		step := r.Pick(29, 7)
		r.ExploreBetween("timeframes", fmt.Sprintf("pairs of every %dth day of %d years: JSON (by value, by pointer, inside a structure) and query round trips", step, years), 0, func(c *engine.Ctx) {
			n := days / step
			tf := domain.Timeframe{
				StartDate: domain.ShortDate{Time: day(first, 1, 1).AddDate(0, 0, step*c.Choose(n, "start"))},
				EndDate:   domain.ShortDate{Time: day(first, 1, 1).AddDate(0, 0, step*c.Choose(n, "end"))},
			}
			type box struct{ T domain.Timeframe }
			var b1, b2, b3 domain.Timeframe
			j1, e1 := json.Marshal(&tf)
			json.Unmarshal(j1, &b1)
			j2, e2 := json.Marshal(tf)
			json.Unmarshal(j2, &b2)
			var bx box
			j3, e3 := json.Marshal(box{tf})
			json.Unmarshal(j3, &bx)
			b3 = bx.T
			for i, b := range []domain.Timeframe{b1, b2, b3} {
				if e1 != nil || e2 != nil || e3 != nil || !b.StartDate.Time.Equal(tf.StartDate.Time) || !b.EndDate.Time.Equal(tf.EndDate.Time) {
					c.Fail(fmt.Sprint("frame-json-", i), "%s is written as %s / %s / %s, read as %s", canon(tf), j1, j2, j3, canon(b))
				}
			}
			q := tf.ToQuery()
			c.Between()
			enc, err := url.ParseQuery(q.Encode())
			if err != nil {
				c.Fail("query", "%v", err)
			}
			bk, err := domain.TimeframeFromQuery(enc)
			if err != nil || !bk.StartDate.Time.Equal(tf.StartDate.Time) || !bk.EndDate.Time.Equal(tf.EndDate.Time) {
				c.Fail("query", "%s is queried as %s, read as %s, error %v", canon(tf), q.Encode(), canon(bk), err)
			}
			c.State(string(j1))
			c.Validated()
		})
		forms := []string{"", "20140201", "2014-02-01", "20140230", "20141301", "2014", "x", "00010101", " 20140201", "201402011"}
		r.Explore("until today", "the timeframe from every day of four years, made in three time zones, until today", 0, func(c *engine.Ctx) {
			d := domain.Date(1999, 1, 1+c.Choose(4*365, "day"), loc[c.Choose(3, "zone")])
			today := func() time.Time { return domain.NewShortDate(time.Now().In(d.Location())).Time }
			before := today()
			tf := domain.TimeframeFromDate(d)
			after := today()
			if !tf.StartDate.Time.Equal(d.Time) || tf.EndDate.Time.Before(before) || tf.EndDate.Time.After(after) {
				c.Fail("until-today", "the timeframe from %s until today is %s", d, canon(tf))
			}
			c.State(canon(tf.StartDate))
			c.Validated()
		})
		r.Explore("bad-queries", "every pair of well-formed, malformed and missing query values", 0, func(c *engine.Ctx) {
			f, t := forms[c.Choose(len(forms), "from")], forms[c.Choose(len(forms), "to")]
			v := url.Values{}
			if f != "" || c.Bool("emptyFrom") {
				v.Set("from", f)
			}
			if t != "" || c.Bool("emptyTo") {
				v.Set("to", t)
			}
			ok := func(s string) bool { _, err := time.Parse("20060102", s); return err == nil }
			tf, err := domain.TimeframeFromQuery(v)
			if (err == nil) != (ok(f) && ok(t)) {
				c.Fail("bad-query", "%v yields %s, error %v", v, canon(tf), err)
			}
			if err != nil && !tf.IsZero() {
				c.Fail("bad-query-value", "%v yields %s with error %v", v, canon(tf), err)
			}
			c.State(v.Encode())
		})
		jforms := []string{`""`, `"2014-02-01"`, `"2014-02-30"`, `"x"`, `null`, `5`, `"2014-02-01,2014-03-01"`, `","`, `"2014-02-01,x"`, `"x,2014-02-01"`, `"a,b,c"`, `{}`, `[]`}
		r.Explore("bad-json", "every JSON value of a menu for dates and timeframes, into fresh and used variables", 0, func(c *engine.Ctx) {
			j := jforms[c.Choose(len(jforms), "json")]
			tf := domain.Timeframe{}
			if c.Bool("used") {
				tf = domain.Timeframe{StartDate: domain.ShortDate{Time: day(2000, 1, 1)}, EndDate: domain.ShortDate{Time: day(2000, 1, 2)}}
			}
			if p := engine.Guard(func() { json.Unmarshal([]byte(j), &tf) }); p != "" {
				c.Fail("panic:frame", "%s: %s", j, p)
			}
			if j == `"2014-02-01,2014-03-01"` {
				if tf.StartDate.Format("20060102") != "20140201" || tf.EndDate.Format("20060102") != "20140301" {
					c.Fail("frame", "%s is read as %s", j, canon(tf))
				}
			} else if j[0] == '"' && !tf.IsZero() {
				c.Fail("frame-garbage", "%s is read as %s", j, canon(tf))
			}
			var d domain.ShortDate
			var err error
			if p := engine.Guard(func() { err = json.Unmarshal([]byte(j), &d) }); p != "" {
				c.Fail("panic:date", "%s: %s", j, p)
			}
			if err == nil && !d.IsZero() && j != `"2014-02-01"` {
				c.Fail("date-garbage", "%s is read as %s", j, d.Time)
			}
			if err == nil && j[0] == '"' && j != `""` && j != `"2014-02-01"` {
				c.Fail("date-accepts", "%s is accepted as %s", j, d.Time)
			}
			c.State(j)
		})
	})
}

var defaultClientMu sync.Mutex

// newBase64With makes the Base64 transport, whose only constructor takes the
// default client.
func newBase64With(cl *http.Client) transport.Transport {
	defaultClientMu.Lock()
	defer defaultClientMu.Unlock()
	old := http.DefaultClient
	defer func() { http.DefaultClient = old }()
	http.DefaultClient = cl
	return https.NewBase64()
}
