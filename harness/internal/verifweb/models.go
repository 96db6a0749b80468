// Package verifweb models the parts of net/http and html/template that the web endpoint uses, for the executor, and
// runs the endpoint for real natively.
package verifweb

import (
	"errors"
	htmpl "html/template"
	"io"
	"net"
	"net/http"
	ttmpl "text/template"

	"github.com/clipperhouse/jargon/internal/verifmodels"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

type route struct {
	pattern string
	handler http.Handler
}

// routes holds the routes of each mux; nil stands for the default one.
var routes = map[*http.ServeMux][]route{}

var errClosed = errors.New("http: Server closed")

// Listening says that the server was started.
var Listening bool

// Serve is called when the server is started, with a function that finds the handler of a path.
var Serve func(find func(path string) http.Handler)

func init() {
	if sym.Symbolic() {
		http.DefaultServeMux = new(http.ServeMux)
	}
}

func key(m *http.ServeMux) *http.ServeMux {
	if m == http.DefaultServeMux {
		return nil
	}
	return m
}

// M_muxNew models http.NewServeMux.
func M_muxNew() *http.ServeMux { return new(http.ServeMux) }

// M_muxHandle models (*http.ServeMux).Handle.
func M_muxHandle(m *http.ServeMux, pattern string, h http.Handler) {
	m = key(m)
	routes[m] = append(routes[m], route{pattern, h})
}

// M_muxHandleFunc models (*http.ServeMux).HandleFunc.
func M_muxHandleFunc(m *http.ServeMux, pattern string, h func(http.ResponseWriter, *http.Request)) {
	M_muxHandle(m, pattern, http.HandlerFunc(h))
}

// M_muxServeHTTP models (*http.ServeMux).ServeHTTP.
func M_muxServeHTTP(m *http.ServeMux, w http.ResponseWriter, r *http.Request) {
	h := find(m, r.URL.Path)
	if h == nil {
		http.NotFound(w, r)
		return
	}
	h.ServeHTTP(w, r)
}

func find(m *http.ServeMux, path string) http.Handler {
	best, n := http.Handler(nil), -1
	for _, r := range routes[key(m)] {
		p := r.pattern
		for i := 0; i < len(p); i++ {
			if p[i] == ' ' || p[i] == '{' {
				verifmodels.Unsupported("pattern " + p)
			}
		}
		if p == path || len(p) > 0 && p[len(p)-1] == '/' && len(path) >= len(p) && path[:len(p)] == p {
			if len(p) > n {
				best, n = r.handler, len(p)
			}
		}
	}
	return best
}

// M_httpHandle models http.Handle on the default mux.
func M_httpHandle(pattern string, h http.Handler) { M_muxHandle(nil, pattern, h) }

// M_httpHandleFunc models http.HandleFunc.
func M_httpHandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	M_httpHandle(pattern, http.HandlerFunc(h))
}

// M_httpListenAndServe models http.ListenAndServe: one request, then the server ends.
func M_httpListenAndServe(addr string, h http.Handler) error {
	Listening = true
	Serve(func(path string) http.Handler {
		if m, ok := h.(*http.ServeMux); ok {
			return find(m, path)
		}
		if h != nil {
			return h
		}
		return find(nil, path)
	})
	return errClosed
}

// M_serve models http.Serve and (*http.Server).Serve.
func M_serve(l net.Listener, h http.Handler) error { return M_httpListenAndServe("", h) }

// M_serverServe models (*http.Server).Serve.
func M_serverServe(s *http.Server, l net.Listener) error { return M_httpListenAndServe("", s.Handler) }

type listener struct{ net.Listener }

func (listener) Close() error { return nil }

// M_listen models net.Listen.
func M_listen(network, addr string) (net.Listener, error) { return listener{}, nil }

// M_serverListenAndServe models (*http.Server).ListenAndServe.
func M_serverListenAndServe(s *http.Server) error { return M_httpListenAndServe(s.Addr, s.Handler) }

// M_canonicalHeader models textproto.CanonicalMIMEHeaderKey.
func M_canonicalHeader(s string) string {
	b := []byte(s)
	up := true
	for i, c := range b {
		if up && 'a' <= c && c <= 'z' {
			b[i] = c - 32
		}
		if !up && 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return string(b)
}

// M_logPrint models log.Print and the like.
func M_logPrint(a ...interface{}) {}

// M_logPrintf models log.Printf.
func M_logPrintf(format string, a ...interface{}) {}

// M_logFatal models log.Fatal.
func M_logFatal(a ...interface{}) { panic(verifmodels.ExitCode(1)) }

// M_logFatalf models log.Fatalf.
func M_logFatalf(format string, a ...interface{}) { panic(verifmodels.ExitCode(1)) }

// M_getenv models os.Getenv.
func M_getenv(name string) string { return "" }

// M_lookupenv models os.LookupEnv.
func M_lookupenv(name string) (string, bool) { return "", false }

// Templates: literal text, the data itself, its methods String and IsLemma and the like, and if/else.

type node struct {
	kind    int // 0 text, 1 value, 2 if
	text    string
	yes, no []node
	escaped bool
}

type tmpl struct {
	name  string
	nodes []node
	err   error
	html  bool
}

var htmpls = map[*htmpl.Template]*tmpl{}
var ttmpls = map[*ttmpl.Template]*tmpl{}

// M_htmlNew models html/template.New.
func M_htmlNew(name string) *htmpl.Template {
	t := new(htmpl.Template)
	htmpls[t] = &tmpl{name: name, html: true}
	return t
}

// M_textNew models text/template.New.
func M_textNew(name string) *ttmpl.Template {
	t := new(ttmpl.Template)
	ttmpls[t] = &tmpl{name: name}
	return t
}

// M_htmlParse models (*html/template.Template).Parse.
func M_htmlParse(t *htmpl.Template, text string) (*htmpl.Template, error) {
	htmpls[t].parse(text)
	return t, nil
}

// M_textParse models (*text/template.Template).Parse.
func M_textParse(t *ttmpl.Template, text string) (*ttmpl.Template, error) {
	ttmpls[t].parse(text)
	return t, nil
}

// M_htmlExecute models (*html/template.Template).Execute.
func M_htmlExecute(t *htmpl.Template, w io.Writer, data interface{}) error {
	return htmpls[t].execute(w, htmpls[t].nodes, data)
}

// M_textExecute models (*text/template.Template).Execute.
func M_textExecute(t *ttmpl.Template, w io.Writer, data interface{}) error {
	return ttmpls[t].execute(w, ttmpls[t].nodes, data)
}

func trim(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\t' || s[len(s)-1] == '\n') {
		s = s[:len(s)-1]
	}
	return s
}

func (t *tmpl) parse(text string) {
	rest := text
	t.nodes, rest = t.list(rest, false)
	if t.html {
		t.context(t.nodes, &place{})
	}
}

// place is where in HTML a part of a template stands.
type place struct {
	tag   bool
	quote byte
}

func (t *tmpl) context(ns []node, p *place) {
	for _, n := range ns {
		switch n.kind {
		case 0:
			for i := 0; i < len(n.text); i++ {
				c := n.text[i]
				switch {
				case p.quote != 0:
					if c == p.quote {
						p.quote = 0
					}
				case p.tag:
					if c == '"' || c == '\'' {
						p.quote = c
					}
					if c == '>' {
						p.tag = false
					}
				case c == '<':
					p.tag = true
					for _, s := range []string{"script", "style", "textarea", "title", "!--"} {
						if len(n.text) > i+len(s) && n.text[i+1:i+1+len(s)] == s {
							verifmodels.Unsupported("template with " + s)
						}
					}
				}
			}
		case 1:
			if p.tag || p.quote != 0 {
				verifmodels.Unsupported("template with a value in a tag")
			}
		case 2:
			before := *p
			t.context(n.yes, p)
			after := *p
			*p = before
			t.context(n.no, p)
			if *p != after {
				verifmodels.Unsupported("template branches that end differently")
			}
		}
	}
}

func (t *tmpl) list(s string, inner bool) ([]node, string) {
	var out []node
	for {
		i := 0
		for i+1 < len(s) && (s[i] != '{' || s[i+1] != '{') {
			i++
		}
		if i+1 >= len(s) {
			if s != "" {
				out = append(out, node{text: s})
			}
			return out, ""
		}
		if i > 0 {
			out = append(out, node{text: s[:i]})
		}
		s = s[i+2:]
		j := 0
		for j+1 < len(s) && (s[j] != '}' || s[j+1] != '}') {
			j++
		}
		if j+1 >= len(s) || len(s) > 0 && s[0] == '-' || j > 0 && s[j-1] == '-' {
			verifmodels.Unsupported("template action")
		}
		act := trim(s[:j])
		s = s[j+2:]
		switch {
		case act == "end" || act == "else":
			if !inner {
				verifmodels.Unsupported("template action " + act)
			}
			return out, act + "|" + s
		case len(act) > 3 && act[:3] == "if ":
			n := node{kind: 2, text: trim(act[3:])}
			var r string
			n.yes, r = t.list(s, true)
			if len(r) >= 5 && r[:5] == "else|" {
				n.no, r = t.list(r[5:], true)
			}
			if len(r) < 4 || r[:4] != "end|" {
				verifmodels.Unsupported("template if")
			}
			s = r[4:]
			out = append(out, n)
		case act == "." || act == ".String":
			out = append(out, node{kind: 1})
		case act == "html ." || act == ". | html" || act == "html .String" || act == ".String | html":
			out = append(out, node{kind: 1, escaped: true})
		default:
			verifmodels.Unsupported("template action " + act)
		}
	}
}

func escape(s string) string {
	out := ""
	from := 0
	for i := 0; i < len(s); i++ {
		r := ""
		switch s[i] {
		case 0:
			r = "\uFFFD"
		case '"':
			r = "&#34;"
		case '&':
			r = "&amp;"
		case '\'':
			r = "&#39;"
		case '+':
			r = "&#43;"
		case '<':
			r = "&lt;"
		case '>':
			r = "&gt;"
		default:
			continue
		}
		out += s[from:i] + r
		from = i + 1
	}
	return out + s[from:]
}

// M_htmlEscapeString models template.HTMLEscapeString.
func M_htmlEscapeString(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
			out += "\uFFFD"
		case '"':
			out += "&#34;"
		case '&':
			out += "&amp;"
		case '\'':
			out += "&#39;"
		case '<':
			out += "&lt;"
		case '>':
			out += "&gt;"
		default:
			out += s[i : i+1]
		}
	}
	return out
}

func (t *tmpl) execute(w io.Writer, ns []node, data interface{}) error {
	for _, n := range ns {
		switch n.kind {
		case 0:
			if _, err := w.Write([]byte(n.text)); err != nil {
				return err
			}
		case 1:
			s, safe := "", false
			switch x := data.(type) {
			case nil:
				verifmodels.Unsupported("template with no data")
			case htmpl.HTML:
				s, safe = string(x), t.html
			case error:
				s = x.Error()
			case interface{ String() string }:
				s = x.String()
			case string:
				s = x
			default:
				verifmodels.Unsupported("template data")
			}
			if t.html && !safe {
				s = escape(s)
			} else if n.escaped {
				s = M_htmlEscapeString(s)
			}
			if _, err := w.Write([]byte(s)); err != nil {
				return err
			}
		case 2:
			yes := false
			switch n.text {
			case ".IsLemma":
				x, ok := data.(interface{ IsLemma() bool })
				if !ok {
					verifmodels.Unsupported("template data")
				}
				yes = x.IsLemma()
			case "not .IsLemma":
				x, ok := data.(interface{ IsLemma() bool })
				if !ok {
					verifmodels.Unsupported("template data")
				}
				yes = !x.IsLemma()
			default:
				verifmodels.Unsupported("template condition " + n.text)
			}
			ns := n.no
			if yes {
				ns = n.yes
			}
			if err := t.execute(w, ns, data); err != nil {
				return err
			}
		}
	}
	return nil
}
