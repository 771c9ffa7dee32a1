package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vNet is a network of real servers with an ordered queue per direction of a
// link and one per server for what it schedules for itself.
type vNet struct {
	srv            []*server
	edges          [][2]int
	cfg            serverConfig
	q              [][]des.OutgoingMessage // by edge and direction
	loop           [][]des.OutgoingMessage
	now            time.Duration
	anyTime, still bool
	made           []vTx
	cws            []int          // codewords delivered to each server
	dec            []int          // transactions learned from them
	old            map[[2]int]int // transactions of earlier blocks, by server and neighbour
	cur            map[[2]int]int // transactions of the current block
}

func (w *vNet) id(m des.Module) int {
	for i, s := range w.srv {
		if m == des.Module(s) {
			return i
		}
	}
	vnd.Fail("a message to nobody")
	return 0
}

// put sorts what server at sends after learning fresh transactions.
func (w *vNet) put(at int, out []des.OutgoingMessage, fresh int, arrival, tick bool) {
	for _, o := range out {
		switch m := o.Payload.(type) {
		case blockArrival:
			vnd.Assert(arrival, "an arrival is scheduled twice")
			vnd.Assert(m.n == w.cfg.blockArrivalBurst && o.Delay >= 0, "wrong next arrival")
			arrival = false
			vnd.Assert(o.To == nil || o.To == des.Module(w.srv[at]), "an arrival at another server")
		case createNewBlock:
			vnd.Assert(tick, "a synchronized block start is scheduled twice")
			vnd.Assert(o.Delay == w.cfg.forceSynchronize, "wrong synchronization period")
			tick = false
			vnd.Assert(o.To == nil || o.To == des.Module(w.srv[at]), "a block start at another server")
		case loopback:
			vnd.Assert(fresh > 0, "a transaction is relayed twice")
			fresh--
			vnd.Assert(o.To == nil || o.To == des.Module(w.srv[at]), "a transaction is scheduled at another server")
			w.loop[at] = append(w.loop[at], o)
		default:
			to := w.id(o.To)
			ok := false
			for i, e := range w.edges {
				d := -1
				if e == [2]int{at, to} {
					d = 0
				}
				if e == [2]int{to, at} {
					d = 1
				}
				if d >= 0 {
					vnd.Assert(o.Delay == time.Duration(i+1)*time.Millisecond, "a message with another link's delay")
					w.q[2*i+d] = append(w.q[2*i+d], o)
					ok = true
				}
			}
			vnd.Assert(ok, "a message to a server that is no neighbour")
			if cw, is := o.Payload.(codeword); is {
				// no transaction is part of two blocks to the same neighbour
				l := [2]int{at, to}
				if cw.newBlock {
					w.old[l] |= w.cur[l]
					w.cur[l] = 0
				}
				m := vMembers(cw.Codeword, w.made)
				vnd.Assert(m&w.old[l] == 0, "a transaction is relayed to a neighbour twice")
				w.cur[l] |= m
			}
		}
	}
	vnd.Assert(!arrival, "the next arrival is not scheduled")
	vnd.Assert(!tick, "the next synchronized block start is not scheduled")
	vnd.Assert(fresh == 0, "a transaction is not relayed")
	s := w.srv[at]
	vnd.Assert(s.receivedCodewords == w.cws[at], "codewords are not counted exactly once")
	vnd.Assert(s.decodedTransactions == w.dec[at], "decoded transactions are not counted exactly once")
}

func (w *vNet) tick() {
	if w.still {
		return
	}
	if !w.anyTime {
		w.now += time.Second
		return
	}
	t := time.Duration(vTs())
	vnd.Assume(t >= w.now)
	w.now = t
}

func (w *vNet) arrive(at, n int) {
	w.tick()
	s := w.srv[at]
	before := len(s.received)
	out := s.HandleMessage(blockArrival{n}, s, w.now)
	vnd.Assert(len(s.received) == before+n, "not every generated transaction is registered")
	for i := 0; i < n; i++ {
		t := vMake(len(w.made), uint64(w.now))
		_, there := s.received[t.Data()]
		vnd.Assert(there, "a generated transaction is not registered")
		w.made = append(w.made, t)
	}
	w.put(at, out, n, true, false)
}

func (w *vNet) sync(at int) {
	w.tick()
	s := w.srv[at]
	w.put(at, s.HandleMessage(createNewBlock{}, s, w.now), 0, false, true)
}

func (w *vNet) deliverLoop(at int) {
	w.tick()
	m := w.loop[at][0]
	w.loop[at] = w.loop[at][1:]
	s := w.srv[at]
	_, there := s.received[m.Payload.(loopback).tx.Data()]
	vnd.Assert(there, "a transaction that was not received is relayed")
	tx := m.Payload.(loopback).tx.Data()
	var held []int
	for _, p := range s.peers {
		held = append(held, len(s.handlers[p].sender.buffer))
	}
	out := s.HandleMessage(m.Payload, s, w.now)
	for i, p := range s.peers {
		block := 0
		for _, o := range out {
			if cw, is := o.Payload.(codeword); is && o.To == p && cw.newBlock {
				block = len(s.handlers[p].sender.currentBlock)
				vnd.Assert(block > 0 && s.handlers[p].sender.currentBlock[block-1].Data() == tx, "another transaction is relayed to a neighbour")
			}
		}
		b := s.handlers[p].sender.buffer
		vnd.Assert(block+len(b) == held[i]+1, "a transaction is not relayed to every neighbour exactly once")
		vnd.Assert(len(b) == 0 || b[len(b)-1].Data() == tx, "another transaction is relayed to a neighbour")
	}
	w.put(at, out, 0, false, false)
}

// deliver delivers the oldest message of one direction of a link.
func (w *vNet) deliver(d int) {
	w.tick()
	m := w.q[d][0]
	w.q[d] = w.q[d][1:]
	to, from := w.edges[d/2][1-d%2], w.edges[d/2][d%2]
	vnd.Assert(m.To == des.Module(w.srv[to]), "a message is queued for another server")
	before := len(w.srv[to].received)
	out := w.srv[to].HandleMessage(m.Payload, w.srv[from], w.now)
	fresh := len(w.srv[to].received) - before
	if _, is := m.Payload.(codeword); is {
		w.cws[to]++
		w.dec[to] += fresh
	} else {
		vnd.Assert(fresh == 0, "a transaction from an acknowledgement")
	}
	if fresh > 0 {
		vnd.Reach("decoded")
	}
	w.put(to, out, fresh, false, false)
}

var vTopologies = [][][2]int{
	{{0, 1}},
	{{0, 1}, {1, 2}},
	{{0, 1}, {1, 2}, {2, 0}},
	{{1, 0}, {2, 0}, {3, 0}},
}

// VerifNetwork decides S04: servers on real links with any interleaving of
// arrivals and deliveries, then everything is delivered.
func VerifNetwork() {
	topo := vTopologies[vnd.Param("topology")]
	n := 0
	for _, e := range topo {
		for _, x := range e {
			if x >= n {
				n = x + 1
			}
		}
	}
	period := time.Duration(vnd.Param("sync")) * time.Second
	cfg := vConfig(vnd.Param("th"), 1, 0, period)
	txgen = newTransactionGenerator()
	w := &vNet{edges: topo, cfg: cfg, q: make([][]des.OutgoingMessage, 2*len(topo)), loop: make([][]des.OutgoingMessage, n), old: map[[2]int]int{}, cur: map[[2]int]int{}, cws: make([]int, n), dec: make([]int, n)}
	w.anyTime = vnd.Param("sym") != 0
	w.srv = vServers(n, topo, int64(vnd.Param("seed")), cfg)
	for _, s := range w.srv {
		s.forwardRateLimiter.minInterval = 10 * time.Millisecond
	}
	txs := vnd.Param("n")
	for s := 0; s < vnd.Param("k"); s++ {
		ev := 2*n + len(w.q)
		if period != 0 {
			ev += n
		}
		c := vnd.Choose(ev)
		switch {
		case c < n:
			b := 1 + vnd.Choose(2)
			if len(w.made)+b > txs {
				vnd.Stop()
			}
			w.arrive(c, b)
		case c < 2*n:
			if len(w.loop[c-n]) == 0 {
				vnd.Stop()
			}
			w.deliverLoop(c - n)
		case c < 2*n+len(w.q):
			if len(w.q[c-2*n]) == 0 {
				vnd.Stop()
			}
			w.deliver(c - 2*n)
		default:
			w.sync(c - 2*n - len(w.q))
		}
	}
	w.still = w.anyTime
	idle := 0
	for r := 0; r < vnd.Param("drain") && idle < 3; r++ {
		idle++
		for at := range w.srv {
			for len(w.loop[at]) > 0 {
				w.deliverLoop(at)
				idle = 0
			}
			if period != 0 {
				w.sync(at)
			}
		}
		for d := range w.q {
			for n := len(w.q[d]); n > 0; n-- {
				w.deliver(d)
				idle = 0
			}
		}
	}
	vnd.Assert(idle >= 3, "messages without end")
	for _, s := range w.srv {
		// a block may be acknowledged before all of it has arrived: not every
		// transaction need reach every server
		vnd.Assert(len(s.received) <= len(w.made), "a server knows something that was never generated")
	}
	if len(w.made) == txs {
		vnd.Reach("all")
	}
	vnd.Reach("end")
}

// VerifBacklog decides S04 for many transactions that wait for a block: bursts
// of any size at any server, with every other message delivered in between or
// only in the end.
func VerifBacklog() {
	topo := vTopologies[vnd.Param("topology")]
	n, max := vnd.Param("servers"), vnd.Param("n")
	cfg := vConfig(1<<20, 1, 0, 0)
	txgen = newTransactionGenerator()
	w := &vNet{edges: topo, cfg: cfg, q: make([][]des.OutgoingMessage, 2*len(topo)), loop: make([][]des.OutgoingMessage, n), old: map[[2]int]int{}, cur: map[[2]int]int{}, cws: make([]int, n), dec: make([]int, n)}
	w.srv = vServers(n, topo, 1, cfg)
	for _, s := range w.srv {
		s.forwardRateLimiter.minInterval = 10 * time.Millisecond
	}
	for r := 0; r < 2; r++ {
		at := vnd.Choose(n)
		w.arrive(at, 1+vnd.Choose(max))
		if r == 0 && vnd.Bool() {
			continue
		}
		for i := range w.srv {
			for len(w.loop[i]) > 0 {
				w.deliverLoop(i)
			}
		}
	}
	total := 0
	for i, s := range w.srv {
		total += len(s.received)
		for _, p := range s.peers {
			vnd.Assert(len(s.handlers[p].sender.buffer) == len(s.received), "a transaction is not relayed to every neighbour exactly once")
		}
		vnd.Assert(len(w.loop[i]) == 0, "messages without end")
	}
	vnd.Assert(total == len(w.made), "not every generated transaction is registered")
	vnd.Reach("end")
}
