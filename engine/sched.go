package main

// Threads, synchronisation, happens-before race detection.

import (
	"fmt"
	"strings"
)

type shadowCell struct {
	wt    int
	wc    uint32
	reads []uint32
}

func (e *E) spawn(f *Fn, args, env []V) {
	if e.merging > 0 {
		panic(mergeBail{})
	}
	p := e.threads[e.cur]
	id := len(e.threads)
	if id > 8 {
		e.unsupported("too many goroutines")
	}
	vc := make([]uint32, id+1)
	copy(vc, p.vc)
	vc[id] = 1
	th := &Thread{id: id, vc: vc}
	fr := &Frame{fn: f, regs: make([]V, f.nregs), ep: e.epoch, dst: dstNone}
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	th.frames = []*Frame{fr}
	e.fnCalls[f.ssa]++
	e.threads = append(e.threads, th)
	p.vc[p.id]++
	if !e.conc {
		e.conc = true
		e.onUndo(func() { e.conc = false })
	}
}

func (e *E) runnable() []int {
	var out []int
	for i, t := range e.threads {
		if !t.done && t.blocked == "" {
			out = append(out, i)
		}
	}
	return out
}

// syncPoint is called before a synchronisation operation. It returns false when
// another thread was chosen; the operation must then leave the instruction untouched.
func (e *E) syncPoint() bool {
	if e.merging > 0 && len(e.threads) > 1 {
		panic(mergeBail{})
	}
	if len(e.threads) <= 1 {
		return true
	}
	th := e.threads[e.cur]
	if th.pan != nil {
		return true
	}
	if th.granted {
		th.granted = false
		return true
	}
	rs := e.runnable()
	max := e.maxPreempts
	if n, ok := e.params["preempt"]; ok {
		max = n
	}
	if len(rs) <= 1 || e.preempts >= max {
		return true
	}
	order := []int{e.cur}
	for _, r := range rs {
		if r != e.cur {
			order = append(order, r)
		}
	}
	k := e.choose(make([]*Term, len(order)))
	e.stats.SchedChoices++
	if order[k] == e.cur {
		return true
	}
	th.granted = true
	old := e.preempts
	e.preempts++
	e.onUndo(func() { e.preempts = old })
	e.cur = order[k]
	return false
}

// reschedule is the pseudo-instruction executed when the current thread cannot run.
func (e *E) reschedule() {
	rs := e.runnable()
	if len(rs) == 0 {
		e.end("deadlock", "all goroutines are asleep")
	}
	k := 0
	if len(rs) > 1 {
		k = e.choose(make([]*Term, len(rs)))
	}
	e.cur = rs[k]
}

func (e *E) threadDone(th *Thread) {
	if th.id == 0 {
		e.end("ok", "")
	}
}

func (e *E) block(key string) { e.threads[e.cur].blocked = key }

func (e *E) wake(key string) {
	for _, t := range e.threads {
		if t.blocked == key || t.blocked != "" && key[len(key)-1] == '|' && strings.Contains(t.blocked, key) {
			t.blocked = ""
		}
	}
}

func joinVC(a, b []uint32) []uint32 {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	out := make([]uint32, n)
	copy(out, a)
	for i, x := range b {
		if x > out[i] {
			out[i] = x
		}
	}
	return out
}

func (e *E) acquire(key string) {
	if len(e.threads) <= 1 {
		return
	}
	th := e.threads[e.cur]
	th.vc = joinVC(th.vc, e.sideVC[key])
}

func (e *E) release(key string) {
	if len(e.threads) <= 1 {
		return
	}
	th := e.threads[e.cur]
	old := e.sideVC[key]
	e.sideVC[key] = joinVC(old, th.vc)
	e.onUndo(func() { e.sideVC[key] = old })
	th.vc[th.id]++
}

func (e *E) touch(o *Obj, off, n int, write bool) {
	th := e.threads[e.cur]
	for i := off; i < off+n; i++ {
		old := o.shadow[i]
		if old != nil {
			if old.wt != th.id && old.wc > 0 && (old.wt >= len(th.vc) || th.vc[old.wt] < old.wc) {
				e.end("race", "data race on %s", o.what)
			}
			if write {
				for t, c := range old.reads {
					if t != th.id && c > 0 && (t >= len(th.vc) || th.vc[t] < c) {
						e.end("race", "data race on %s", o.what)
					}
				}
			}
		}
		nw := &shadowCell{}
		if old != nil {
			nw.wt, nw.wc = old.wt, old.wc
		}
		if write {
			nw.wt, nw.wc = th.id, th.vc[th.id]
		} else {
			if old != nil && th.id < len(old.reads) && old.reads[th.id] == th.vc[th.id] {
				continue
			}
			if old != nil {
				nw.reads = append([]uint32(nil), old.reads...)
			}
			for len(nw.reads) <= th.id {
				nw.reads = append(nw.reads, 0)
			}
			nw.reads[th.id] = th.vc[th.id]
		}
		if o.shadow == nil {
			o.shadow = map[int]*shadowCell{}
		}
		o.shadow[i] = nw
		k := i
		e.onUndo(func() {
			if old == nil {
				delete(o.shadow, k)
			} else {
				o.shadow[k] = old
			}
		})
	}
}

func ptrKey(p V) string {
	o, _ := p.r.(*Obj)
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%d.%d", o.id, p.n)
}
