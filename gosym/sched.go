package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// gor is one interpreted goroutine. Exactly one runs at a time; the baton is passed explicitly.
type gor struct {
	w           *Worker
	id          int
	stack       []Value
	sp          int
	depth       int
	top         *frame
	nextDeferOf *frame
	ready       func() bool
	what        string
	resume      chan struct{}
	done        bool
	killed      bool
	exited      chan struct{}
}

func newGor(w *Worker, id int) *gor {
	g := &gor{w: w, id: id, resume: make(chan struct{}, 1)}
	return g
}

func (w *Worker) spawn(d deferred) {
	g := newGor(w, len(w.gors))
	g.exited = make(chan struct{})
	w.gors = append(w.gors, g)
	w.hbSpawn(g.id)
	go func() {
		<-g.resume
		defer close(g.exited)
		if g.killed {
			return
		}
		var fatal any
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if gp, ok := r.(*goPanic); ok {
					if gp.goexit {
						return
					}
					fatal = &pathEnd{kind: pePanic, msg: w.panicText(gp) + " " + gp.where}
					return
				}
				if pe, ok := r.(*pathEnd); ok {
					if pe.kind == peKilled && g.killed {
						fatal = pe
						return
					}
					fatal = pe
					return
				}
				fatal = &pathEnd{kind: peUnsupported, msg: fmt.Sprintf("engine: %v %s", r, w.where())}
			}()
			switch {
			case d.code != nil:
				w.callCode(d.code, d.args, nil)
			case d.bi != "":
				w.builtin(d.in, d.bi, d.args)
			default:
				w.callFn(d.fn, d.args)
			}
		}()
		if g.killed {
			return
		}
		g.done = true
		if fatal != nil {
			w.setFatal(fatal)
			w.handTo(w.gors[0])
			return
		}
		// pick somebody else; this goroutine is finished
		next := w.pick(nil)
		if next == nil {
			w.setFatal(&pathEnd{kind: peDeadlock, msg: w.deadlockText()})
			next = w.gors[0]
		}
		w.handTo(next)
	}()
	w.yieldPoint()
}

func (w *Worker) setFatal(f any) { w.local["fatal"] = f }

func (w *Worker) deadlockText() string {
	s := "all goroutines are blocked:"
	for _, g := range w.gors {
		if !g.done {
			s += fmt.Sprintf(" g%d(%s)", g.id, g.what)
		}
	}
	return s
}

func (w *Worker) handTo(g *gor) {
	w.cur = g
	g.resume <- struct{}{}
}

func (g *gor) runnable() bool { return !g.done && (g.ready == nil || g.ready()) }

// pick selects the next goroutine to run; self (if runnable) is preferred without interleaving.
func (w *Worker) pick(self *gor) *gor {
	var rs []*gor
	for _, g := range w.gors {
		if g.runnable() {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	if w.preempt >= 0 && !w.delay {
		return rs[w.choose(len(rs), "schedule")]
	}
	// round robin
	rr := w.roundRobin(rs)
	if !w.delay || w.preempt <= 0 || len(rs) == 1 {
		return rr
	}
	c := w.choose(len(rs), "schedule")
	if c == 0 {
		return rr
	}
	w.preempt--
	for _, g := range rs {
		if g != rr {
			if c--; c == 0 {
				return g
			}
		}
	}
	return rr
}

func (w *Worker) roundRobin(rs []*gor) *gor {
	cur := 0
	if w.cur != nil {
		cur = w.cur.id
	}
	for _, g := range rs {
		if g.id > cur {
			return g
		}
	}
	return rs[0]
}

func (w *Worker) wait(g *gor) {
	<-g.resume
	if g.killed {
		panic(&pathEnd{kind: peKilled})
	}
	if g.id == 0 {
		if f := w.local["fatal"]; f != nil {
			panic(f)
		}
	}
}

// block suspends the current goroutine until ready holds.
func (w *Worker) block(what string, ready func() bool) {
	g := w.cur
	if w.initDepth > 0 && !ready() {
		w.unsupported("blocking in initialiser: %s", what)
	}
	for !ready() {
		g.ready = ready
		g.what = what
		next := w.pick(g)
		if next == nil {
			e := &pathEnd{kind: peDeadlock, msg: w.deadlockText()}
			if g.id == 0 {
				panic(e)
			}
			w.setFatal(e)
			next = w.gors[0]
			w.handTo(next)
			w.wait(g)
			continue
		}
		if next != g {
			w.handTo(next)
			w.wait(g)
		}
	}
	g.ready = nil
}

// yieldPoint lets another goroutine run first, when interleavings are explored.
func (w *Worker) yieldPoint() {
	if w.preempt <= 0 || w.initDepth > 0 {
		return
	}
	g := w.cur
	var rs []*gor
	for _, o := range w.gors {
		if o != g && o.runnable() {
			rs = append(rs, o)
		}
	}
	if len(rs) == 0 {
		return
	}
	c := w.choose(len(rs)+1, "preempt")
	if c == 0 {
		return
	}
	w.preempt--
	w.handTo(rs[c-1])
	w.wait(g)
}

// gosched switches to another runnable goroutine, if any (runtime.Gosched, time.Sleep).
func (w *Worker) gosched() {
	g := w.cur
	var rs []*gor
	for _, o := range w.gors {
		if o != g && o.runnable() {
			rs = append(rs, o)
		}
	}
	if len(rs) == 0 {
		return
	}
	if w.preempt >= 0 && !w.delay {
		c := w.choose(len(rs)+1, "sleep")
		if c == len(rs) {
			return
		}
		w.handTo(rs[c])
	} else {
		w.handTo(w.roundRobin(rs))
	}
	w.wait(g)
}

func (w *Worker) killGors() {
	if len(w.gors) <= 1 {
		return
	}
	for _, g := range w.gors[1:] {
		select {
		case <-g.exited:
			continue
		default:
		}
		g.killed = true
		w.cur = g
		select {
		case g.resume <- struct{}{}:
		default:
		}
		<-g.exited
	}
	w.cur = w.gors[0]
}

// --- channels ---

func (w *Worker) chanOf(v Value) *chanV {
	if v.p == nil {
		return nil
	}
	c, ok := v.p.(*chanV)
	if !ok {
		w.unsupported("channel operation on %T", v.p)
	}
	return c
}

func (w *Worker) chanSend(cv, v Value) {
	c := w.chanOf(cv)
	w.yieldPoint()
	if c == nil {
		w.block("send on nil channel", func() bool { return false })
	}
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	w.hbRelease(c, 's')
	if c.cap > 0 {
		w.block("send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			w.rtPanic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	s := &chanSend{v: v}
	c.sendWaiting = append(c.sendWaiting, s)
	w.block("send", func() bool { return s.done || c.closed })
	if !s.done {
		w.rtPanic("send on closed channel")
	}
	w.hbAcquire(c, 'r')
}

func (c *chanV) canRecv() bool { return len(c.buf) > 0 || len(c.sendWaiting) > 0 || c.closed }

func (c *chanV) take() (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendWaiting) > 0 && len(c.buf) < c.cap {
			s := c.sendWaiting[0]
			c.sendWaiting = c.sendWaiting[1:]
			s.done = true
			c.buf = append(c.buf, s.v)
		}
		return v, true
	}
	if len(c.sendWaiting) > 0 {
		s := c.sendWaiting[0]
		c.sendWaiting = c.sendWaiting[1:]
		s.done = true
		return s.v, true
	}
	return zero(c.elemT), false
}

func (w *Worker) chanRecv(cv Value, el types.Type) (Value, bool) {
	c := w.chanOf(cv)
	w.yieldPoint()
	if c == nil {
		w.block("receive from nil channel", func() bool { return false })
	}
	c.recvq++
	w.block("receive", c.canRecv)
	c.recvq--
	if !c.closed || len(c.buf) > 0 {
		w.hbRelease(c, 'r')
	}
	w.hbAcquire(c, 's')
	return c.take()
}

func (w *Worker) chanClose(cv Value) {
	c := w.chanOf(cv)
	w.yieldPoint()
	if c == nil {
		w.rtPanic("close of nil channel")
	}
	if c.closed {
		w.rtPanic("close of closed channel")
	}
	c.closed = true
	w.hbRelease(c, 's')
}

func (w *Worker) doSelect(fr *frame, in *instr) Value {
	sel := in.ssa.(*ssa.Select)
	w.yieldPoint()
	n := len(sel.States)
	chans := make([]*chanV, n)
	for i := range sel.States {
		chans[i] = w.chanOf(w.get(fr, &in.args[i]))
	}
	readyList := func() []int {
		var r []int
		for i, s := range sel.States {
			c := chans[i]
			if c == nil {
				continue
			}
			if s.Dir == types.RecvOnly {
				if c.canRecv() {
					r = append(r, i)
				}
			} else if c.closed || (c.cap > 0 && len(c.buf) < c.cap) || (c.cap == 0 && c.recvq > len(c.sendWaiting)) {
				r = append(r, i)
			}
		}
		return r
	}
	rl := readyList()
	idx := -1
	if len(rl) == 0 && sel.Blocking {
		for i, s := range sel.States {
			if chans[i] != nil && s.Dir == types.RecvOnly {
				chans[i].recvq++
			}
		}
		w.block("select", func() bool { return len(readyList()) > 0 })
		for i, s := range sel.States {
			if chans[i] != nil && s.Dir == types.RecvOnly {
				chans[i].recvq--
			}
		}
		rl = readyList()
	}
	if len(rl) > 0 {
		idx = rl[0]
		if w.preempt >= 0 || w.mapOrder {
			idx = rl[w.choose(len(rl), "select")]
		}
	}
	out := tupleV{intV(idx), Value{}}
	var nrecv []Value
	for i, s := range sel.States {
		if s.Dir == types.RecvOnly {
			v := zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			if i == idx {
				var ok bool
				w.hbRelease(chans[i], 'r')
				w.hbAcquire(chans[i], 's')
				v, ok = chans[i].take()
				out[1] = boolV(ok)
			}
			nrecv = append(nrecv, v)
		} else if i == idx {
			c := chans[i]
			v := w.get(fr, &in.edges[i])
			w.hbRelease(c, 's')
			if c.closed {
				w.rtPanic("send on closed channel")
			}
			if c.cap > 0 {
				c.buf = append(c.buf, v)
			} else {
				c.sendWaiting = append(c.sendWaiting, &chanSend{v: v})
			}
		}
	}
	return Value{p: append(out, nrecv...)}
}
