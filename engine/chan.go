package main

// Channels. A channel is an object: its capacity, whether it is closed, and the values in it. An unbuffered channel
// holds the value of a sender that waits for a receiver to take it.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	chCap = iota
	chClosed
	chBuf
	chCells
)

func (e *E) makeChan(n int) V {
	o := e.newObj(chCells, "channel")
	o.cells[chCap] = V{n: uint64(n)}
	return V{r: o}
}

func chKey(o *Obj, kind string) string { return kind + "|" + ptrKey(V{r: o}) + "|" }

func chBufOf(o *Obj) Agg {
	b, _ := o.cells[chBuf].r.(Agg)
	return b
}

// receivers says whether a goroutine waits to receive from o; exact says that it waits for nothing else.
func (e *E) receivers(o *Obj) (some, exact bool) {
	k := chKey(o, "recv")
	exact = true
	for i, t := range e.threads {
		if i == e.cur || t.done || !strings.Contains(t.blocked, k) {
			continue
		}
		some = true
		if t.blocked != k {
			exact = false
		}
	}
	return some, exact
}

func (e *E) blockOn(key string) {
	if strings.HasPrefix(key, "recv") {
		// someone may wait in a select to send
		e.wake("send" + key[len("recv"):])
	}
	e.block(key)
}

// chanPut puts v into o.
func (e *E) chanPut(o *Obj, v V) {
	k := chKey(o, "")
	e.acquire("took" + k)
	e.release(k)
	b := chBufOf(o)
	e.write(o, chBuf, V{r: append(b[:len(b):len(b)], v)})
	e.wake(chKey(o, "recv"))
}

// chanTake takes a value out of o, which holds one or is closed.
func (e *E) chanTake(o *Obj, zero V) (V, bool) {
	k := chKey(o, "")
	e.acquire(k)
	b := chBufOf(o)
	if len(b) == 0 {
		return zero, false
	}
	v := b[0]
	e.release("took" + k)
	e.write(o, chBuf, V{r: append(Agg(nil), b[1:]...)})
	e.wake(chKey(o, "send"))
	e.wake(chKey(o, "taken"))
	return v, true
}

// send is false if the instruction has to be executed again.
func (e *E) send(ch V, v V) bool {
	e.noMergeHere()
	if ch.r == nil {
		e.block("nil channel")
		return false
	}
	o := ch.r.(*Obj)
	th := e.threads[e.cur]
	if th.sending {
		// the value was taken
		th.sending = false
		e.acquire("took" + chKey(o, ""))
		return true
	}
	if !e.syncPoint() {
		return false
	}
	if o.cells[chClosed].n != 0 {
		e.goPanic(V{r: &Iface{e.prog.rtErrType, vStr("send on closed channel")}}, "send on closed channel")
		return false
	}
	n := len(chBufOf(o))
	switch c := int(o.cells[chCap].n); {
	case c > 0 && n < c:
		e.chanPut(o, v)
		return true
	case c == 0 && n == 0:
		e.chanPut(o, v)
		th.sending = true
		e.block(chKey(o, "taken"))
		return false
	}
	e.blockOn(chKey(o, "send"))
	return false
}

func (e *E) recv(ch V, zero V) (v V, got, done bool) {
	e.noMergeHere()
	if ch.r == nil {
		e.block("nil channel")
		return V{}, false, false
	}
	if !e.syncPoint() {
		return V{}, false, false
	}
	o := ch.r.(*Obj)
	if len(chBufOf(o)) == 0 && o.cells[chClosed].n == 0 {
		e.blockOn(chKey(o, "recv"))
		return V{}, false, false
	}
	v, got = e.chanTake(o, zero)
	return v, got, true
}

func (e *E) closeChan(ch V) bool {
	e.noMergeHere()
	if ch.r == nil {
		e.goPanic(V{r: &Iface{e.prog.rtErrType, vStr("close of nil channel")}}, "close of nil channel")
		return false
	}
	o := ch.r.(*Obj)
	if o.cells[chClosed].n != 0 {
		e.goPanic(V{r: &Iface{e.prog.rtErrType, vStr("close of closed channel")}}, "close of closed channel")
		return false
	}
	if o.cells[chCap].n == 0 && len(chBufOf(o)) > 0 {
		e.unsupported("close of a channel with a waiting sender")
	}
	e.release(chKey(o, ""))
	e.write(o, chClosed, V{n: 1})
	e.wake(chKey(o, "recv"))
	e.wake(chKey(o, "send"))
	return true
}

func (c *compiler) recvInstr(in *ssa.UnOp, dst int) {
	x := c.opd(in.X)
	l := c.e.tc.layout(in.X.Type().Underlying().(*types.Chan).Elem())
	ok := in.CommaOk
	c.add(func(e *E, fr *Frame) {
		v, got, done := e.recv(x.get(fr), l.zero())
		if !done {
			return
		}
		if ok {
			v = V{r: Tuple{v, vBool(got)}}
		}
		fr.regs[dst] = v
		fr.pc++
	})
}

func (c *compiler) sendInstr(in *ssa.Send) {
	ch, x := c.opd(in.Chan), c.opd(in.X)
	c.add(func(e *E, fr *Frame) {
		if e.send(ch.get(fr), freeze(x.get(fr))) {
			fr.pc++
		}
	})
}

func (c *compiler) selectInstr(in *ssa.Select, dst int) {
	type arm struct {
		send    bool
		ch, val opd
		l       *Layout
	}
	var arms []arm
	nrecv := 0
	for _, s := range in.States {
		a := arm{send: s.Dir == types.SendOnly, ch: c.opd(s.Chan)}
		if a.send {
			a.val = c.opd(s.Send)
		} else {
			a.l = c.e.tc.layout(s.Chan.Type().Underlying().(*types.Chan).Elem())
			nrecv++
		}
		arms = append(arms, a)
	}
	blocking := in.Blocking
	c.add(func(e *E, fr *Frame) {
		e.noMergeHere()
		if !e.syncPoint() {
			return
		}
		var ready []int
		keys := ""
		for i, a := range arms {
			ch := a.ch.get(fr)
			if ch.r == nil {
				continue
			}
			o := ch.r.(*Obj)
			n, size, closed := len(chBufOf(o)), int(o.cells[chCap].n), o.cells[chClosed].n != 0
			if !a.send {
				if n > 0 || closed {
					ready = append(ready, i)
				}
				keys += chKey(o, "recv")
				continue
			}
			keys += chKey(o, "send")
			switch {
			case closed || size > 0 && n < size:
				ready = append(ready, i)
			case size == 0 && n == 0:
				some, exact := e.receivers(o)
				if some && !exact {
					e.unsupported("select with a receiver that selects too")
				}
				if some {
					ready = append(ready, i)
				}
			}
		}
		out := make(Tuple, 2+nrecv)
		out[0] = vInt(-1)
		ri := 2
		for _, a := range arms {
			if !a.send {
				out[ri] = a.l.zero()
				ri++
			}
		}
		if len(ready) == 0 {
			if blocking {
				if keys == "" {
					keys = "nothing to select"
				}
				// those who wait in a select to send to one of these
				for _, a := range arms {
					if ch := a.ch.get(fr); !a.send && ch.r != nil {
						e.wake(chKey(ch.r.(*Obj), "send"))
					}
				}
				e.block(keys)
				return
			}
			fr.regs[dst] = V{r: out}
			fr.pc++
			return
		}
		k := ready[0]
		if len(ready) > 1 {
			k = ready[e.choose(make([]*Term, len(ready)))]
		}
		out[0] = vInt(int64(k))
		a := arms[k]
		o := a.ch.get(fr).r.(*Obj)
		if a.send {
			if o.cells[chClosed].n != 0 {
				e.goPanic(V{r: &Iface{e.prog.rtErrType, vStr("send on closed channel")}}, "send on closed channel")
				return
			}
			e.chanPut(o, freeze(a.val.get(fr)))
		} else {
			ri := 2
			for _, b := range arms[:k] {
				if !b.send {
					ri++
				}
			}
			v, got := e.chanTake(o, a.l.zero())
			out[ri], out[1] = v, vBool(got)
		}
		fr.regs[dst] = V{r: out}
		fr.pc++
	})
}
