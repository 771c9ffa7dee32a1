package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative goroutine scheduler: exactly one interpreted goroutine runs at a
// time; control changes hands only at blocking operations (and at vnd.Yield).

type G struct {
	id     int
	resume chan bool // false: die
	parked bool
	name   string
}

type waiter struct {
	g     *G
	val   Value
	ok    bool
	done  *bool // shared by the cases of one select
	fired *int  // case index fired
	ci    int
	send  bool
}

type Chan struct {
	cap    int
	buf    []Value
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	et     types.Type
	id     int
	ticker bool
}

type Timer struct {
	at int64
	ch *Chan
}

func (m *M) newG() *G {
	m.nG++
	g := &G{id: m.nG, resume: make(chan bool, 1)}
	m.gs = append(m.gs, g)
	return g
}

func (m *M) spawn(fv Value, args []Value, ins ssa.CallInstruction) {
	g := m.newG()
	go func() {
		if !<-g.resume {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if _, dead := r.(gDead); dead {
					return
				}
				e := m.classify(r)
				if m.pathErr == nil && !m.dead {
					m.pathErr = &e
				}
				// hand control to main, which dies on resume
				m.gs[0].resume <- false
				return
			}
			// finished: run someone else
			m.handOver()
		}()
		m.callValue(nil, fv, args, ins)
	}()
	m.ready = append(m.ready, g)
}

type gDead struct{}

// handOver passes control from a finished goroutine to the next ready one.
func (m *M) handOver() {
	if m.dead {
		return
	}
	n := m.pick()
	if n == nil {
		e := pathEnd{"violation", "deadlock: all goroutines are asleep"}
		m.pathErr = &e
		m.gs[0].resume <- false
		return
	}
	m.cur = n
	n.resume <- true
}

func (m *M) pick() *G {
	if len(m.ready) == 0 {
		return nil
	}
	i := 0
	if m.x.h.Sched && len(m.ready) > 1 {
		i = m.choose(len(m.ready))
	}
	g := m.ready[i]
	m.ready = append(append([]*G{}, m.ready[:i]...), m.ready[i+1:]...)
	return g
}

// park blocks the current goroutine until it is made ready.
func (m *M) park() {
	g := m.cur
	savedDepth := m.depth
	n := m.pick()
	if n == nil {
		if g.id == 1 {
			panic(abort{pathEnd{"violation", "deadlock: all goroutines are asleep"}})
		}
		e := pathEnd{"violation", "deadlock: all goroutines are asleep"}
		m.pathErr = &e
		m.gs[0].resume <- false
		if !<-g.resume {
			panic(gDead{})
		}
		return
	}
	if n == g {
		return
	}
	m.cur = n
	n.resume <- true
	if !<-g.resume {
		if g.id == 1 {
			if m.pathErr != nil {
				panic(abort{*m.pathErr})
			}
			panic(abort{pathEnd{"unsupported", "main goroutine killed"}})
		}
		panic(gDead{})
	}
	m.depth = savedDepth
}

func (m *M) makeReady(g *G) { m.ready = append(m.ready, g) }

// yield lets every other ready goroutine run until it blocks.
func (m *M) yield() {
	for i := 0; len(m.ready) > 0; i++ {
		if i > 10000 {
			panic(unsupported("goroutines that never block"))
		}
		m.makeReady(m.cur)
		m.park()
	}
}

func (m *M) killAll() {
	m.dead = true
	for _, g := range m.gs[1:] {
		select {
		case g.resume <- false:
		default:
		}
	}
}

func (m *M) wake(w *waiter) {
	*w.done = true
	if w.fired != nil {
		*w.fired = w.ci
	}
	m.makeReady(w.g)
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !*w.done {
			return true
		}
	}
	return false
}

func (c *Chan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) }
func (c *Chan) canRecv() bool { return len(c.buf) > 0 || c.closed || hasWaiter(c.sendq) }

func (m *M) doSend(c *Chan, v Value) {
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.val, w.ok = v, true
		m.wake(w)
		return
	}
	c.buf = append(c.buf, v)
}

func (m *M) doRecv(c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			m.wake(w)
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v := w.val
		m.wake(w)
		return v, true
	}
	return zero(c.et), false // closed
}

func (m *M) chanSend(c *Chan, v Value) {
	if c == nil {
		m.park()
		return
	}
	if c.canSend() {
		m.doSend(c, v)
		return
	}
	d := false
	w := &waiter{g: m.cur, val: v, done: &d, send: true}
	c.sendq = append(c.sendq, w)
	m.park()
	if !w.ok && c.closed && !d {
		m.rtPanic("send on closed channel")
	}
}

func (m *M) chanRecv(c *Chan) (Value, bool) {
	if c == nil {
		m.park()
		return nil, false
	}
	if c.canRecv() {
		return m.doRecv(c)
	}
	d := false
	w := &waiter{g: m.cur, done: &d}
	c.recvq = append(c.recvq, w)
	m.park()
	if !w.ok {
		return zero(c.et), false
	}
	return w.val, true
}

func (m *M) chanClose(c *Chan) {
	if c == nil {
		m.rtPanic("close of nil channel")
	}
	if c.closed {
		m.rtPanic("close of closed channel")
	}
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.ok = false
		m.wake(w)
	}
}

func (fr *frame) selectStmt(in *ssa.Select, c *cins) Value {
	m := fr.m
	type st struct {
		ch   *Chan
		val  Value
		send bool
	}
	var states []st
	for i, s := range in.States {
		x := st{ch: fr.get(&c.ops[2*i]).(*Chan), send: s.Dir == types.SendOnly}
		if x.send {
			x.val = copyVal(fr.get(&c.ops[2*i+1]))
		}
		states = append(states, x)
	}
	var rdy []int
	for i, s := range states {
		if s.ch == nil {
			continue
		}
		if s.send && s.ch.canSend() || !s.send && s.ch.canRecv() {
			rdy = append(rdy, i)
		}
	}
	chosen := -1
	var rv Value
	rok := false
	if len(rdy) > 0 {
		chosen = rdy[m.choose(len(rdy))]
		s := states[chosen]
		if s.send {
			m.doSend(s.ch, s.val)
		} else {
			rv, rok = m.doRecv(s.ch)
		}
	} else if in.Blocking {
		d := false
		f := -1
		ws := make([]*waiter, len(states))
		for i, s := range states {
			if s.ch == nil {
				continue
			}
			w := &waiter{g: m.cur, val: s.val, done: &d, fired: &f, ci: i, send: s.send}
			ws[i] = w
			if s.send {
				s.ch.sendq = append(s.ch.sendq, w)
			} else {
				s.ch.recvq = append(s.ch.recvq, w)
			}
		}
		m.park()
		chosen = f
		if !states[f].send {
			rv, rok = ws[f].val, ws[f].ok
			if !rok {
				rv = zero(states[f].ch.et)
			}
		}
	}
	res := Tuple{uint64(chosen), rok}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == chosen {
				res = append(res, rv)
			} else {
				res = append(res, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}
