package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/internal/verifmodels"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
	"github.com/clipperhouse/jargon/internal/verifweb"
)

var vRegistry = map[string]func(){
	"c24_bytes":   H_c24_bytes,
	"c24_markup":  H_c24_markup,
	"c24_lemmas":  H_c24_lemmas,
	"c24_routes":  H_c24_routes,
	"c24_fails":   H_c24_fails,
	"c24_long":    H_c24_long,
	"c24_large":   H_c24_large,
	"c24_session": H_c24_session,
}

func init() {
	if sym.Symbolic() || verifweb.Child() || os.Getenv("VERIF_REPLAY") == "" {
		return
	}
	name := sym.Load()
	h := vRegistry[name]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no harness", name)
		os.Exit(4)
	}
	h()
	os.Exit(0)
}

// vBody delivers a request body.
type vBody struct {
	data   string
	chunk  int
	fails  bool
	closed bool
	half   int // what remains when during is called
	during func()
}

var errBody = errors.New("the body cannot be read")

func (b *vBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errBody
	}
	if b.during != nil && len(b.data) == b.half {
		f := b.during
		b.during = nil
		f()
	}
	if len(b.data) == 0 {
		if b.fails {
			return 0, errBody
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(b.data)
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	if b.during != nil && n > len(b.data)-b.half {
		n = len(b.data) - b.half
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}

func (b *vBody) Close() error {
	b.closed = true
	return nil
}

// vWriter records a response.
type vWriter struct {
	header http.Header
	sent   http.Header
	status int
	body   []byte
}

func (w *vWriter) Header() http.Header { return w.header }

func (w *vWriter) WriteHeader(status int) {
	if w.status != 0 {
		return
	}
	w.status = status
	w.sent = http.Header{}
	for k, v := range w.header {
		w.sent[k] = v
	}
}

func (w *vWriter) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	w.body = append(w.body, p...)
	return len(p), nil
}

// vAsk sends the endpoint a request.
func vAsk(r verifweb.Request) verifweb.Response { return vSession(false, r)[0] }

// vSession sends the endpoint requests: to its handlers on a model of the server in the executor, over connections
// natively. If within, the second and later ones are answered after half of the body of the first was read.
func vSession(within bool, rs ...verifweb.Request) []verifweb.Response {
	if !sym.Symbolic() {
		return verifweb.Session(within, rs...)
	}
	res := make([]verifweb.Response, len(rs))
	verifweb.Serve = func(find func(path string) http.Handler) {
		if !within {
			for i, r := range rs {
				res[i] = vServe(find, r, nil)
			}
			return
		}
		rest := func() {
			for i, r := range rs[1:] {
				res[i+1] = vServe(find, r, nil)
			}
		}
		res[0] = vServe(find, rs[0], rest)
	}
	vMain()
	return res
}

// vServe has a handler answer a request; during is called after half of its body was read, or at its end.
func vServe(find func(path string) http.Handler, r verifweb.Request, during func()) verifweb.Response {
	w := &vWriter{header: http.Header{}}
	h := find(r.Path)
	if h == nil {
		w.WriteHeader(404)
	} else {
		body := &vBody{data: r.Body, chunk: r.Chunk, fails: r.Fails, during: during}
		body.half = len(r.Body) - len(r.Body)/2
		req := &http.Request{Method: r.Method, URL: &url.URL{Path: r.Path, RawQuery: r.Query}, RequestURI: r.Path, Host: "localhost",
			Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: int64(len(r.Body)),
			Body: body}
		if r.Query != "" {
			req.RequestURI += "?" + r.Query
		}
		if r.Fails {
			req.ContentLength += 100
		}
		if r.Unsized {
			req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
		}
		if r.Header[0] != "" {
			req.Header[r.Header[0]] = []string{r.Header[1]}
		}
		h.ServeHTTP(w, req)
		during = body.during
	}
	w.WriteHeader(200)
	if during != nil {
		during()
	}
	res := verifweb.Response{Status: w.status, Body: string(w.body)}
	if v := w.sent["Access-Control-Allow-Origin"]; len(v) > 0 {
		res.Origin = v[0]
	}
	return res
}

func vMain() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(verifmodels.ExitCode); !ok {
				panic(r)
			}
		}
	}()
	main()
}

// vReader delivers data, then io.EOF.
type vReader struct{ data string }

func (r *vReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

// vWarm has the dictionary built before anything is chosen.
func vWarm() { stackoverflow.Tags(jargon.TokenizeString("warm up")).Count() }

// vMatches says that body is the tokens in order, each escaped, each lemma in its span.
func vMatches(body string, ts []*jargon.Token) bool {
	for _, t := range ts {
		if t.IsLemma() {
			const open = `<span class="lemma">`
			if len(body) < len(open) || body[:len(open)] != open {
				return false
			}
			body = body[len(open):]
		}
		s := t.String()
		for i := 0; i < len(s); i++ {
			n := vEscaped(body, s[i])
			if n == 0 {
				return false
			}
			body = body[n:]
		}
		if t.IsLemma() {
			const end = `</span>`
			if len(body) < len(end) || body[:len(end)] != end {
				return false
			}
			body = body[len(end):]
		}
	}
	return body == ""
}

// vEscaped is how many bytes of body stand for c, zero if they do not.
func vEscaped(body string, c byte) int {
	var forms []string
	switch c {
	case '<':
		forms = []string{"&lt;", "&#60;", "&#x3c;", "&#x3C;"}
	case '>':
		forms = []string{"&gt;", "&#62;", "&#x3e;", "&#x3E;"}
	case '&':
		forms = []string{"&amp;", "&#38;", "&#x26;"}
	case '"':
		forms = []string{"&#34;", "&quot;", "&#x22;"}
	case '\'':
		forms = []string{"&#39;", "&apos;", "&#x27;"}
	case '+':
		forms = []string{"&#43;", "+", "&#x2b;"}
	case 0:
		forms = []string{"\uFFFD", "\x00"}
	default:
		if len(body) > 0 && body[0] == c {
			return 1
		}
		return 0
	}
	for _, f := range forms {
		if len(body) >= len(f) && body[:len(f)] == f {
			return len(f)
		}
	}
	return 0
}

// vTokens is the tokens of a body.
func vTokens(html bool, body string) []*jargon.Token {
	ts := (*jargon.TokenStream)(nil)
	if html {
		ts = jargon.TokenizeHTML(&vReader{body})
	} else {
		ts = jargon.Tokenize(&vReader{body})
	}
	ts = stackoverflow.Tags(ts)
	var want []*jargon.Token
	for {
		t, err := ts.Next()
		sym.Assert(err == nil, "no error")
		if t == nil {
			break
		}
		want = append(want, t)
		if t.IsLemma() {
			sym.Cover("lemma")
		}
	}
	return want
}

// vRoute is the route of a mode.
func vRoute(html bool) string {
	if html {
		return "/html"
	}
	return "/text"
}

// vExpect checks a response to a body that can be read.
func vExpect(html bool, body string, chunk int) {
	vExpectOf(html, body, verifweb.Request{Chunk: chunk})
}

func vExpectOf(html bool, body string, r verifweb.Request) {
	want := vTokens(html, body)
	r.Method, r.Path, r.Body = "POST", vRoute(html), body
	vAnswered(vAsk(r), want)
}

func vAnswered(res verifweb.Response, want []*jargon.Token) {
	if len(res.Body) > 8192 {
		sym.Observe(fmt.Sprint(res.Status, len(res.Body)))
	} else {
		sym.Observe(fmt.Sprint(res.Status) + res.Origin + res.Body)
	}
	sym.Assert(res.Status == 200, "the request succeeds")
	sym.Assert(res.Origin == "*", "cross-origin use is allowed")
	sym.Assert(vMatches(res.Body, want), "the body is the tokens, escaped, lemmas in spans")
	sym.Cover("answered")
}

// H_c24_bytes: any short body.
func H_c24_bytes() {
	vWarm()
	vExpect(sym.Choice("html", 2) == 1, sym.String("body", sym.Param("n", 2)), 0)
}

// H_c24_markup: characters that HTML treats specially.
func H_c24_markup() {
	vWarm()
	body := sym.Of("body", "<>&\"'+a/;\x00", sym.Param("n", 3))
	if sym.Choice("around", 2) == 1 {
		body = "Rails " + body + " C++"
	}
	vExpectOf(sym.Choice("html", 2) == 1, body, verifweb.Request{Unsized: sym.Choice("unsized", 2) == 1})
}

// H_c24_lemmas: tags and their synonyms, next to each other and to other characters.
func H_c24_lemmas() {
	vWarm()
	body := ""
	for i := 0; i < sym.Param("k", 2); i++ {
		if i > 0 {
			body += sym.Of("between", " ,<&\n", 1)
		}
		body += []string{"Ruby on Rails", "objc", "nothing", "C++", "<b>vue</b>", "html 5"}[sym.Choice("term", 6)]
	}
	vExpect(sym.Choice("html", 2) == 1, body, []int{0, 1}[sym.Choice("chunk", 2)])
}

// H_c24_routes: one-segment routes and methods.
func H_c24_routes() {
	vWarm()
	path := "/" + []string{"text", "html", "", "tex", "texts", "htm", "TEXT", "Html", "x", "json", "text.html", "index.html", "x/text", "a/b/c", "_ah/", "favicon.ico/x/y/z"}[sym.Choice("route", 16)]
	if sym.Choice("any", 2) == 1 {
		path = "/" + sym.Of("route", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~", 1+sym.Choice("length", 6))
		sym.Assume(path != "/." && path != "/..")
	}
	method := []string{"GET", "POST", "PUT", "OPTIONS", "DELETE", "PATCH"}[sym.Choice("method", 6)]
	r := verifweb.Request{Method: method, Path: path, Body: "we use rails & <b>"}
	switch sym.Choice("request", 5) {
	case 1:
		r.Body = ""
	case 2:
		r.Unsized = true
	case 3:
		r.Query = "text=/html&x"
	case 4:
		r.Header = [][2]string{{"Origin", "http://localhost"}, {"Content-Type", "application/json"}, {"Expect", "100-continue"}}[sym.Choice("header", 2)]
	}
	res := vAsk(r)
	sym.Observe(fmt.Sprint(res.Status, res.Origin))
	sym.Assert(res.Origin == "*", "cross-origin use is allowed")
	if method == "OPTIONS" {
		sym.Assert(res.Status < 300, "a preflight request succeeds")
		return
	}
	if path == "/text" || path == "/html" {
		sym.Assert(res.Status == 200, "the routes are found")
		sym.Cover("found")
	} else {
		sym.Assert(res.Status == 404, "other routes are not found")
		sym.Cover("not found")
	}
}

// H_c24_fails: the body ends with an error, after any text.
func H_c24_fails() {
	vWarm()
	html := sym.Choice("html", 2) == 1
	path := "/text"
	if html {
		path = "/html"
	}
	body := []string{"", "ruby on ", "we use Rails. ", "<b>objc</b"}[sym.Choice("text", 4)] + sym.Of("body", "a <&'", sym.Param("n", 2))
	res := vAsk(verifweb.Request{Method: "POST", Path: path, Body: body, Fails: true, Chunk: []int{0, 1}[sym.Choice("chunk", 2)], Unsized: sym.Choice("unsized", 2) == 1})
	sym.Observe(fmt.Sprint(res.Status, res.Origin))
	sym.Assert(res.Status >= 400, "the status is an error")
	sym.Assert(res.Origin == "*", "cross-origin use is allowed")
	sym.Cover("fails")
}

// H_c24_large: large bodies.
func H_c24_large() {
	vWarm()
	n := []int{65535, 65536, 65537, 1<<20 + 70000}[sym.Choice("n", 4)]
	if sym.Param("large", 0) == 1 {
		n = []int{1 << 20, 1<<20 + 1, 1 << 22}[sym.Choice("n", 3)]
	}
	// words of 1023 letters, each with a space, and what remains
	b := make([]byte, n)
	for i := range b {
		b[i] = "ab"[i&1]
		if i%1024 == 1023 {
			b[i] = ' '
		}
	}
	vExpect(sym.Choice("html", 2) == 1, string(b)+[]string{"", " Rails"}[sym.Choice("end", 2)], 0)
	sym.Cover("large")
}

// H_c24_long: bodies about the sizes of buffers, with a failure or none at the end.
func H_c24_long() {
	vWarm()
	n := sym.Size("n", 100, 9000, 4095, 4096, 8191)
	html := sym.Choice("html", 2) == 1
	body := ""
	for len(body) < n {
		body += "it's <b>Rails</b> & we use \"C++\"; or not.\n"
	}
	body = body[:n] + []string{"", "<", "'", "objc"}[sym.Choice("end", 4)]
	if sym.Choice("fails", 2) == 0 {
		vExpect(html, body, 0)
		sym.Cover("long")
		return
	}
	path := "/text"
	if html {
		path = "/html"
	}
	res := vAsk(verifweb.Request{Method: "POST", Path: path, Body: body, Fails: true})
	sym.Observe(fmt.Sprint(res.Status, res.Origin))
	sym.Assert(res.Status >= 400, "the status is an error")
	sym.Assert(res.Origin == "*", "cross-origin use is allowed")
}

// H_c24_session: several requests, one after another or one while another's body arrives.
func H_c24_session() {
	vWarm()
	bodies := []string{"Rails. objc; & (C++) we use Rails & C++ ", "<b>vue</b>. <i>objc</i> (Rails) <b>C++", "", "we use Rails & C++ "}
	within := sym.Choice("within", 2) == 1
	var rs []verifweb.Request
	var want [][]*jargon.Token
	for i := 0; i < sym.Param("k", 2); i++ {
		r := verifweb.Request{Method: "POST"}
		if kind := sym.Choice("kind", 5); kind < 4 {
			html := sym.Choice("html", 2) == 1
			r.Path, r.Body = vRoute(html), bodies[kind]
			if kind == 3 {
				r.Body += sym.Of("body", "a<", 1)
			}
			r.Fails = kind < 2 && sym.Choice("fails", 2) == 1
			want = append(want, vTokens(html, r.Body))
		} else {
			r.Path, r.Method = "/else", []string{"POST", "OPTIONS"}[sym.Choice("method", 2)]
			r.Body = "Rails"
			want = append(want, nil)
		}
		rs = append(rs, r)
	}
	for i, res := range vSession(within, rs...) {
		r := rs[i]
		switch {
		case r.Method == "OPTIONS":
			sym.Assert(res.Status < 300 && res.Origin == "*", "a preflight request succeeds")
		case r.Path == "/else":
			sym.Assert(res.Status == 404 && res.Origin == "*", "other routes are not found")
		case r.Fails:
			sym.Assert(res.Status >= 400 && res.Origin == "*", "the status is an error")
		default:
			vAnswered(res, want[i])
		}
	}
	sym.Cover("session")
}
