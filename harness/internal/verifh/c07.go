package main

import (
	"errors"
	"io"

	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c07_agree"] = H_c07_agree
	registry["c07_text"] = H_c07_text
	registry["c07_mixed"] = H_c07_mixed
	registry["c07_writer"] = H_c07_writer
	registry["c07_long"] = H_c07_long
}

var errWriter = errors.New("writer failed")

// writer accepts room bytes, then fails.
type writer struct {
	got   string
	room  int
	calls int
	fails int
	err   error // errWriter if nil
	late  bool  // the write that takes the last room fails, though it accepts everything
}

func (w *writer) error() error {
	if w.err != nil {
		return w.err
	}
	return errWriter
}

func (w *writer) Write(p []byte) (int, error) {
	w.calls++
	if w.fails > 0 {
		w.fails++
	}
	if len(p) <= w.room {
		w.got += string(p)
		w.room -= len(p)
		if w.late && w.room == 0 {
			w.fails++
			return len(p), w.error()
		}
		return len(p), nil
	}
	n := w.room
	w.got += string(p[:n])
	w.room = 0
	w.fails++
	return n, w.error()
}

// consume reads the rest of the stream in one of all ways and compares with want.
func consume(ts *jargon.TokenStream, way int, want []*jargon.Token) {
	switch way {
	case 0:
		got, err := drain(ts)
		sym.Assert(err == nil && identical(got, want), "Next delivers the tokens")
	case 1:
		var got []*jargon.Token
		for ts.Scan() {
			sym.Assert(ts.Token() != nil && ts.Err() == nil, "Scan is true only with a token")
			got = append(got, ts.Token())
		}
		sym.Assert(ts.Err() == nil && ts.Token() == nil && identical(got, want), "Scan delivers the tokens")
	case 2:
		got, err := ts.ToSlice()
		sym.Assert(err == nil && identical(got, want), "ToSlice delivers the tokens")
	case 3:
		got, err := ts.String()
		sym.Assert(err == nil && got == concat(want), "String is the concatenation of the tokens")
		sym.Observe(got)
	case 4:
		n, err := ts.Count()
		sym.Assert(err == nil && n == len(want), "Count is the number of tokens")
	default:
		w := &writer{room: 1 << 30}
		n, err := ts.WriteTo(w)
		sym.Assert(err == nil && w.got == concat(want) && n == int64(len(w.got)), "WriteTo writes the concatenation of the tokens")
	}
	for i := 0; i < 2; i++ {
		t, err := ts.Next()
		sym.Assert(t == nil && err == nil, "a stream stays ended")
		sym.Assert(!ts.Scan() && ts.Err() == nil && ts.Token() == nil, "Scan stays false after the end")
	}
}

// H_c07_agree: k tokens of up to n arbitrary bytes.
func H_c07_agree() {
	k := sym.Param("k", 2)
	var all []*jargon.Token
	for i := 0; i < k; i++ {
		all = append(all, jargon.NewToken(sym.String("token", 1+sym.Choice("length", sym.Param("n", 2))), sym.Bool("lemma")))
	}
	consume(from(all...).stream(), sym.Choice("way", 6), all)
	sym.Cover("agree")
}

// H_c07_text: the tokens of any text of n bytes, plain or HTML.
func H_c07_text() {
	s := sym.String("s", sym.Param("n", 1))
	want, err := drain(jargon.TokenizeString(s))
	sym.Assert(err == nil, "no error")
	ts := jargon.TokenizeString(s)
	switch sym.Choice("way", 5) {
	case 0:
		var got []*jargon.Token
		for ts.Scan() {
			got = append(got, ts.Token())
		}
		sym.Assert(ts.Err() == nil && sameTokens(got, want), "Scan delivers the tokens")
	case 1:
		got, err := ts.ToSlice()
		sym.Assert(err == nil && sameTokens(got, want), "ToSlice delivers the tokens")
	case 2:
		got, err := ts.String()
		sym.Assert(err == nil && got == s, "String is the text")
	case 3:
		n, err := ts.Count()
		sym.Assert(err == nil && n == len(want), "Count is the number of tokens")
	default:
		w := &writer{room: 1 << 30}
		n, err := ts.WriteTo(w)
		sym.Assert(err == nil && w.got == s && n == int64(len(s)), "WriteTo writes the text")
	}
	sym.Cover("text")
}

// H_c07_mixed: some tokens read by Next or Scan in any order, the rest in any way.
func H_c07_mixed() {
	k := sym.Param("k", 3)
	all := symTokens(k, 1, "a .")
	src := from(all...)
	ts := src.stream()
	i := 0
	for ; i < k && sym.Choice("more", 2) == 1; i++ {
		if sym.Choice("scan", 2) == 1 {
			sym.Assert(ts.Scan() && ts.Token() == all[i] && ts.Err() == nil, "Scan is true exactly when Token is a new token")
		} else {
			t, err := ts.Next()
			sym.Assert(err == nil && t == all[i], "Next delivers the next token")
			sym.Assert(ts.Token() == all[i], "Token is the token delivered last")
		}
		sym.Assert(src.asked == i+1, "one token is read for each delivered")
	}
	consume(ts, sym.Choice("way", 6), all[i:])
	sym.Cover("mixed")
}

// H_c07_writer: a writer that fails at any point.
func H_c07_writer() {
	k := sym.Param("k", 3)
	var all []*jargon.Token
	total := 0
	for i := 0; i < k; i++ {
		n := 1 + sym.Choice("length", 2)
		all = append(all, jargon.NewToken(sym.Of("token", "a .", n), false))
		total += n
	}
	room := sym.Choice("room", total+1)
	w := &writer{room: room, late: sym.Choice("late", 2) == 1}
	w.err = []error{errWriter, io.ErrShortWrite, io.EOF, io.ErrClosedPipe}[sym.Choice("error", 4)]
	n, err := from(all...).stream().WriteTo(w)
	sym.Assert(n == int64(len(w.got)), "WriteTo reports the bytes the writer accepted")
	sym.Assert(w.got == concat(all)[:len(w.got)], "WriteTo writes a prefix of the concatenation")
	if room < total || w.late && total > 0 {
		sym.Assert(err == w.err, "WriteTo returns the writer's error")
		sym.Assert(w.fails == 1, "WriteTo stops at the writer's first error")
		sym.Assert(len(w.got) == room, "WriteTo writes all that the writer accepts")
		sym.Cover("fails")
	} else {
		sym.Assert(err == nil && len(w.got) == total, "WriteTo writes everything")
	}
}

// H_c07_long: long streams.
func H_c07_long() {
	n := sym.Size("n", 2, 1500, 20, 64, 128, 256, 1000)
	var all []*jargon.Token
	for i := 0; i < n; i++ {
		all = append(all, jargon.NewToken(string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26)}), false))
	}
	all = append(all, symTokens(1, 2, "a .")...)
	if sym.Choice("fail", 2) == 0 {
		consume(from(all...).stream(), sym.Choice("way", 6), all)
		return
	}
	w := &writer{room: 2*n - sym.Choice("room", 3)}
	room := w.room
	m, err := from(all...).stream().WriteTo(w)
	sym.Assert(m == int64(room) && len(w.got) == room && err == errWriter && w.fails == 1, "WriteTo stops at the writer's first error")
	sym.Cover("long")
}
