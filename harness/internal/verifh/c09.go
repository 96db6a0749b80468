package main

import (
	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
	"github.com/clipperhouse/jargon/tokenqueue"
)

func init() {
	registry["c09_history"] = H_c09_history
	registry["c09_long"] = H_c09_long
	registry["c09_shared"] = H_c09_shared
}

// model is a queue with its expected content.
type model struct {
	q    *tokenqueue.TokenQueue
	want []*jargon.Token
}

var serial int

func fresh() *jargon.Token {
	serial++
	return jargon.NewToken("t"+string([]byte{'a' + byte(serial%26), 'a' + byte(serial/26%26), 'a' + byte(serial/676%26)}), false)
}

func (m *model) check() {
	sym.Assert(m.q.Len() == len(m.want), "length agrees with the content")
	sym.Assert(m.q.Any() == (len(m.want) > 0), "emptiness agrees with the content")
}

func (m *model) push(n int) {
	var ts []*jargon.Token
	for i := 0; i < n; i++ {
		ts = append(ts, fresh())
	}
	m.q.Push(ts...)
	m.want = append(m.want[:len(m.want):len(m.want)], ts...)
}

func (m *model) drain() {
	for _, w := range m.want {
		sym.Assert(m.q.Len() > 0 && m.q.Pop() == w, "tokens come out in arrival order")
	}
	sym.Assert(m.q.Len() == 0 && !m.q.Any(), "nothing else is in the queue")
}

// op applies one operation to a and b.
func op(a, b *model, k int) {
	switch k {
	case 0:
		a.push(1)
	case 1:
		a.push(2)
	case 2:
		if len(a.want) == 0 {
			sym.Assume(false)
		}
		sym.Assert(a.q.Pop() == a.want[0], "pop returns the oldest")
		a.want = a.want[1:]
	case 3:
		n := sym.Choice("drop", len(a.want)+1)
		a.q.Drop(n)
		a.want = a.want[n:]
	case 4:
		a.q.Clear()
		a.want = nil
	case 5:
		if len(a.want) == 0 {
			sym.Assume(false)
		}
		a.q.PopTo(b.q)
		b.want = append(b.want[:len(b.want):len(b.want)], a.want[0])
		a.want = a.want[1:]
	case 6:
		a.q.FlushTo(b.q)
		b.want = append(b.want[:len(b.want):len(b.want)], a.want...)
		a.want = nil
	case 7:
		sym.Assert(len(a.q.String()) > 0, "a queue can be shown")
	}
}

// H_c09_history: every history of k operations over two queues.
func H_c09_history() {
	x := &model{q: tokenqueue.New()}
	if sym.Choice("zero", 2) == 1 {
		x.q = &tokenqueue.TokenQueue{}
	}
	t1, t2 := fresh(), fresh()
	y := &model{q: tokenqueue.New(t1, t2), want: []*jargon.Token{t1, t2}}
	k, ops := sym.Param("k", 3), 7
	if k <= 3 {
		ops = 8
	}
	for i := k; i > 0; i-- {
		a, b := x, y
		if sym.Choice("queue", 2) == 1 {
			a, b = y, x
		}
		op(a, b, sym.Choice("operation", ops))
		x.check()
		y.check()
	}
	x.drain()
	y.drain()
	sym.Cover("history")
}

// H_c09_long: the same on queues grown to sizes that matter, after many pops.
func H_c09_long() {
	n := sym.Size("n", 2, 1100, 9, 33, 64, 128, 257, 1025)
	x := &model{q: tokenqueue.New()}
	y := &model{q: tokenqueue.New()}
	for i := 0; i < n; i++ {
		x.push(1)
	}
	pops := []int{0, n / 2, n - 1, n}[sym.Choice("pops", 4)]
	for i := 0; i < pops; i++ {
		sym.Assert(x.q.Pop() == x.want[0], "pop returns the oldest")
		x.want = x.want[1:]
	}
	y.push(sym.Choice("other", 3))
	for i := sym.Param("k", 2); i > 0; i-- {
		a, b := x, y
		if sym.Choice("queue", 2) == 1 {
			a, b = y, x
		}
		k := sym.Choice("operation", 6)
		if k == 3 {
			// drop many
			m := len(a.want) - len(a.want)/3
			a.q.Drop(m)
			a.want = a.want[m:]
		} else if k == 4 {
			op(a, b, 6)
		} else {
			op(a, b, k)
		}
		x.check()
		y.check()
	}
	x.drain()
	y.drain()
	sym.Cover("long")
}

// H_c09_shared: queues filled from the same slice, which may have room to grow.
func H_c09_shared() {
	n := sym.Choice("tokens", sym.Param("n", 6))
	ts := make([]*jargon.Token, 0, n+2*sym.Choice("room", 2))
	for i := 0; i < n; i++ {
		ts = append(ts, fresh())
	}
	keep := append([]*jargon.Token{}, ts...)
	fill := func() *model {
		m := &model{want: keep}
		switch sym.Choice("fill", 3) {
		case 0:
			m.q = tokenqueue.New(ts...)
		case 1:
			m.q = tokenqueue.New()
			m.q.Push(ts...)
		default:
			m.q = tokenqueue.New(ts[:n/2]...)
			m.q.Push(ts[n/2:]...)
		}
		return m
	}
	x, y := fill(), fill()
	for i := sym.Param("k", 2); i > 0; i-- {
		a, b := x, y
		if sym.Choice("queue", 2) == 1 {
			a, b = y, x
		}
		op(a, b, sym.Choice("operation", 7))
		x.check()
		y.check()
	}
	sym.Assert(identical(ts, keep), "the slice is left alone")
	x.drain()
	y.drain()
	sym.Assert(identical(ts, keep), "the slice is left alone")
	sym.Cover("shared")
}
