package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vSamples is what a sketch must hold.
type vSamples struct{ v []float64 }

func (w *vSamples) check(d *distributionSketch, what string, exact bool) {
	vnd.Assert(int(d.sketch.GetCount()) == len(w.v), what+": not exactly one sample for each")
	if len(w.v) == 0 || !exact {
		return
	}
	lo, hi := w.v[0], w.v[0]
	for _, x := range w.v {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	// sketches are accurate to 1%
	min, err := d.sketch.GetMinValue()
	vnd.Assert(err == nil && min > lo*0.97-1e-9 && min < lo*1.03+1e-9, what+": a sample is too small or too large")
	max, err := d.sketch.GetMaxValue()
	vnd.Assert(err == nil && max > hi*0.97-1e-9 && max < hi*1.03+1e-9, what+": a sample is too small or too large")
}

func vSame(a, b *vNet, x, y []des.OutgoingMessage) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Delay != y[i].Delay {
			return false
		}
		if (x[i].To == nil) != (y[i].To == nil) || x[i].To != nil && a.id(x[i].To) != b.id(y[i].To) {
			return false
		}
		switch p := x[i].Payload.(type) {
		case codeword:
			q, is := y[i].Payload.(codeword)
			if !is || p.newBlock != q.newBlock || vMembers(p.Codeword, a.made) != vMembers(q.Codeword, b.made) {
				return false
			}
		case ack:
			if q, is := y[i].Payload.(ack); !is || p != q {
				return false
			}
		case loopback:
			if q, is := y[i].Payload.(loopback); !is || p.tx.Data() != q.tx.Data() {
				return false
			}
		case blockArrival:
			if q, is := y[i].Payload.(blockArrival); !is || p != q {
				return false
			}
		case createNewBlock:
			if _, is := y[i].Payload.(createNewBlock); !is {
				return false
			}
		}
	}
	return true
}

// VerifMeasure decides M01: a network that is measured and one that is not go
// through the same events.
func VerifMeasure() {
	topo := vTopologies[vnd.Param("topology")]
	n := 2
	if vnd.Param("topology") > 0 {
		n = 3
	}
	cfg := vConfig(vnd.Param("th"), 1, 0, 0)
	mk := func() *vNet {
		w := &vNet{edges: topo, cfg: cfg, q: make([][]des.OutgoingMessage, 2*len(topo)), loop: make([][]des.OutgoingMessage, n), old: map[[2]int]int{}, cur: map[[2]int]int{}, cws: make([]int, n), dec: make([]int, n)}
		w.srv = vServers(n, topo, 1, cfg)
		for _, s := range w.srv {
			s.forwardRateLimiter.minInterval = 10 * time.Millisecond
		}
		return w
	}
	a, b := mk(), mk()
	sym := vnd.Param("sym") != 0 // any times
	genA, genB := newTransactionGenerator(), newTransactionGenerator()
	warm := time.Duration(vnd.Param("warm"))*time.Second + time.Second/2
	if sym {
		warm = time.Duration(vTs())
	}
	// over tells whether a sample is due; the very end of the warm-up is left open
	over := func() bool {
		if a.now < warm {
			return false
		}
		vnd.Assume(a.now > warm)
		return true
	}
	lat, ovl := make([]vSamples, n), make([]vSamples, n)
	for _, s := range a.srv {
		s.latencySketch = newDistributionSketch(warm)
		s.overlapSketch = newDistributionSketch(warm)
	}
	txs := vnd.Param("n")
	early := false
	step := func(at int, payload any, from int, fresh []vTx) []des.OutgoingMessage {
		if sym {
			t := time.Duration(vTs())
			vnd.Assume(t >= a.now)
			a.now, b.now = t, t
		} else {
			a.tick()
			b.tick()
		}
		var oldA map[transaction]bool
		if _, is := payload.(codeword); is {
			oldA = map[transaction]bool{}
			for _, t := range a.made {
				if _, there := a.srv[at].received[t.Data()]; there {
					oldA[t.Data()] = true
				}
			}
		}
		txgen = genA
		x := a.srv[at].HandleMessage(payload, a.srv[from], a.now)
		txgen = genB
		y := b.srv[at].HandleMessage(payload, b.srv[from], b.now)
		for range fresh {
			t := vMake(len(a.made), uint64(a.now))
			a.made, b.made = append(a.made, t), append(b.made, t)
		}
		vnd.Assert(vSame(a, b, x, y), "measuring changes what a server does")
		vnd.Assert(a.srv[at].decodedTransactions == b.srv[at].decodedTransactions && a.srv[at].receivedCodewords == b.srv[at].receivedCodewords, "measuring changes the counters")
		if oldA != nil {
			for _, t := range a.made {
				if _, there := a.srv[at].received[t.Data()]; there && !oldA[t.Data()] {
					if over() {
						lat[at].v = append(lat[at].v, a.now.Seconds()-t.Data().ts.Seconds())
						vnd.Reach("latency")
					} else {
						early = true
					}
				}
			}
		}
		for _, o := range x {
			cw, is := o.Payload.(codeword)
			if !is || !cw.newBlock {
				continue
			}
			to := a.id(o.To)
			block := a.srv[at].handlers[o.To].sender.currentBlock
			known := 0
			for _, t := range block {
				if _, there := a.srv[to].received[t.Data()]; there {
					known++
					vnd.Reach("overlap")
				}
			}
			if over() {
				ovl[at].v = append(ovl[at].v, float64(known)/float64(len(block)))
			} else {
				early = true
			}
		}
		lat[at].check(a.srv[at].latencySketch, "latency", !sym)
		ovl[at].check(a.srv[at].overlapSketch, "overlap", true)
		return x
	}
	put := func(at int, out []des.OutgoingMessage) {
		for _, o := range out {
			switch o.Payload.(type) {
			case blockArrival, createNewBlock:
			case loopback:
				a.loop[at] = append(a.loop[at], o)
			default:
				for i, e := range topo {
					if e == [2]int{at, a.id(o.To)} {
						a.q[2*i] = append(a.q[2*i], o)
					}
					if e == [2]int{a.id(o.To), at} {
						a.q[2*i+1] = append(a.q[2*i+1], o)
					}
				}
			}
		}
	}
	for s := 0; s < vnd.Param("k"); s++ {
		c := vnd.Choose(2*n + len(a.q) + 1)
		switch {
		case c < n:
			m := 1 + vnd.Choose(2)
			if len(a.made)+m > txs {
				vnd.Stop()
			}
			put(c, step(c, blockArrival{m}, c, make([]vTx, m)))
		case c < 2*n:
			at := c - n
			if len(a.loop[at]) == 0 {
				vnd.Stop()
			}
			m := a.loop[at][0]
			a.loop[at] = a.loop[at][1:]
			put(at, step(at, m.Payload, at, nil))
		case c < 2*n+len(a.q):
			d := c - 2*n
			if len(a.q[d]) == 0 {
				vnd.Stop()
			}
			m := a.q[d][0]
			a.q[d] = a.q[d][1:]
			put(topo[d/2][1-d%2], step(topo[d/2][1-d%2], m.Payload, topo[d/2][d%2], nil))
		default:
			for i := range a.srv {
				a.srv[i].resetMetric()
				b.srv[i].resetMetric()
				vnd.Assert(a.srv[i].decodedTransactions == 0 && a.srv[i].receivedCodewords == 0, "counters are not reset")
			}
			vnd.Reach("reset")
		}
	}
	if early {
		vnd.Reach("warming up")
	}
	vnd.Reach("end")
}

// VerifReset decides that counters of any values start again from zero.
func VerifReset() {
	var s server
	s.decodedTransactions, s.receivedCodewords = vCount(), vCount()
	s.resetMetric()
	vnd.Assert(s.serverMetric == serverMetric{}, "counters are not reset")
	vnd.Reach("end")
}

func vCount() int { return int(vnd.U64() >> 20) }

// VerifBlock decides that what overlap is measured over is the block being
// sent: the transactions given to the sender since the last block was started.
func VerifBlock() {
	k := vnd.Param("k")
	c := vSenderConfigs[vnd.Choose(vnd.Param("configs"))]
	srv := vServers(2, [][2]int{{0, 1}}, 1, vConfig(c.th, c.overhead, 0, 0))
	s := srv[0].handlers[srv[1]].sender
	txs := vMakes(3 * k)
	given, from, started, out := 0, 0, 0, 0
	for step := 0; step < k; step++ {
		may := vnd.Bool()
		if n := vnd.Choose(4); n > 0 {
			for ; n > 0; n-- {
				s.onTransaction(txs[given], may && n == 1)
				given++
			}
		} else {
			if out == 0 {
				vnd.Stop()
			}
			out--
			s.onAck(ack{vnd.Bool()}, may)
		}
		for _, o := range s.outbox {
			out++
			if cw, is := o.(codeword); is && cw.newBlock {
				started++
				vnd.Assert(len(s.currentBlock) == given-from, "overlap is measured over something else than the block")
				for i, t := range s.currentBlock {
					vnd.Assert(t.Data() == txs[from+i].Data(), "overlap is measured over something else than the block")
				}
				from = given
			}
		}
		s.outbox = s.outbox[:0]
	}
	if started > 1 {
		vnd.Reach("second block")
	}
	vnd.Reach("end")
}
