package main

import (
	"errors"
	"io"
	"unicode"

	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

// errSource is what failing sources report.
var errSource = errors.New("source failed")

// chunks is a reader that delivers data in arbitrary pieces. An empty read and an end
// of input delivered together with data are possible too.
type chunks struct {
	data  string
	pos   int
	max   int  // largest piece
	empty int  // empty reads left
	fail  bool // end with errSource instead of io.EOF
	ended bool // the end was reported
}

func (c *chunks) end() error {
	if c.fail {
		return errSource
	}
	return io.EOF
}

func (c *chunks) Read(p []byte) (int, error) {
	rest := len(c.data) - c.pos
	if rest == 0 {
		if c.ended && c.fail && sym.Choice("error once", 2) == 1 {
			return 0, io.EOF
		}
		c.ended = true
		return 0, c.end()
	}
	m := rest
	if c.max < m {
		m = c.max
	}
	if len(p) < m {
		m = len(p)
	}
	if m == 0 {
		return 0, nil
	}
	alts := m
	if c.empty > 0 {
		alts++
	}
	k := sym.Choice("piece", alts)
	if k == m {
		c.empty--
		return 0, nil
	}
	n := k + 1
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.pos == len(c.data) && sym.Choice("end with data", 2) == 1 {
		c.ended = true
		return n, c.end()
	}
	return n, nil
}

// whole is a reader that delivers all its data at once, then ends with err.
type whole struct {
	data  string
	err   error
	ended bool
}

func (w *whole) Read(p []byte) (int, error) {
	if len(w.data) == 0 {
		if w.ended && w.err != io.EOF && sym.Choice("error once", 2) == 1 {
			return 0, io.EOF
		}
		w.ended = true
		return 0, w.err
	}
	n := copy(p, w.data)
	w.data = w.data[n:]
	return n, nil
}

// source is a token stream over given tokens, ending with err, which counts how often it is asked.
type source struct {
	tokens []*jargon.Token
	err    error
	pos    int
	asked  int
	ended  int

	together bool // the last token comes with the error
}

func (s *source) next() (*jargon.Token, error) {
	s.asked++
	if s.pos < len(s.tokens) {
		t := s.tokens[s.pos]
		s.pos++
		if s.together && s.pos == len(s.tokens) {
			s.ended++
			return t, s.err
		}
		return t, nil
	}
	s.ended++
	if s.err != nil && s.ended > 1 && sym.Choice("error once", 2) == 1 {
		return nil, nil
	}
	return nil, s.err
}

func (s *source) stream() *jargon.TokenStream { return jargon.NewTokenStream(s.next) }

func from(tokens ...*jargon.Token) *source { return &source{tokens: tokens} }

// drain reads a stream to its end by Next.
func drain(ts *jargon.TokenStream) ([]*jargon.Token, error) {
	var out []*jargon.Token
	for {
		t, err := ts.Next()
		if err != nil {
			return out, err
		}
		if t == nil {
			return out, nil
		}
		out = append(out, t)
	}
}

func concat(ts []*jargon.Token) string {
	s := ""
	for _, t := range ts {
		s += t.String()
	}
	return s
}

// show renders tokens for comparing the executor with the native run.
func show(ts []*jargon.Token) string {
	s := ""
	for _, t := range ts {
		s += t.String()
		if t.IsPunct() {
			s += "|p"
		}
		if t.IsSpace() {
			s += "|s"
		}
		if t.IsLemma() {
			s += "|l"
		}
		s += "/"
	}
	return s
}

// snapshot is a token's observable state.
type snapshot struct {
	t                   *jargon.Token
	value               string
	punct, space, lemma bool
}

func snap(t *jargon.Token) snapshot {
	return snapshot{t, t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma()}
}

func (s snapshot) unchanged() bool {
	return s.t.String() == s.value && s.t.IsPunct() == s.punct && s.t.IsSpace() == s.space && s.t.IsLemma() == s.lemma
}

func specSpace(s string) bool {
	for _, r := range s {
		if !unicode.IsSpace(r) {
			return false
		}
	}
	return true
}

func specPunct(s string) bool {
	for _, r := range s {
		if !(unicode.IsPunct(r) || r == '\n' || r == '\r' || r == '\t') {
			return false
		}
	}
	return true
}

// sameToken says that two tokens look the same.
func sameToken(a, b *jargon.Token) bool {
	return a.String() == b.String() && a.IsPunct() == b.IsPunct() && a.IsSpace() == b.IsSpace() && a.IsLemma() == b.IsLemma()
}

func sameTokens(a, b []*jargon.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameToken(a[i], b[i]) {
			return false
		}
	}
	return true
}

// identical says that two token lists hold the very same tokens.
func identical(a, b []*jargon.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func repeat(s string, n int) string {
	b := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}
