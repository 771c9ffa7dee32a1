package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vSamples is what a sketch must hold.
type vSamples struct{ v []time.Duration }

func (w *vSamples) check(d *distributionSketch, exact bool) {
	vnd.Assert(int(d.sketch.GetCount()) == len(w.v), "not exactly one sample for each transaction learned from a neighbour after the warm-up")
	if len(w.v) == 0 || !exact {
		return
	}
	lo, hi := w.v[0], w.v[0]
	for _, x := range w.v {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	// sketches are accurate to 1%
	min, err := d.sketch.GetMinValue()
	vnd.Assert(err == nil && min > lo.Seconds()*0.97-1e-9 && min < lo.Seconds()*1.03+1e-9, "a sample is too small or too large")
	max, err := d.sketch.GetMaxValue()
	vnd.Assert(err == nil && max > hi.Seconds()*0.97-1e-9 && max < hi.Seconds()*1.03+1e-9, "a sample is too small or too large")
}

// vClock is a clock that advances by given or by any steps.
type vClock struct {
	now time.Duration
	sym bool
}

func (c *vClock) tick() {
	if c.sym {
		t := time.Duration(vTs())
		vnd.Assume(t >= c.now)
		c.now = t
	} else {
		c.now += time.Second
	}
}

func (c *vClock) warmup() time.Duration {
	if c.sym {
		return time.Duration(vTs())
	}
	return time.Duration(vnd.Param("warm"))*time.Second + time.Second/2
}

// VerifMeasure decides M01: servers that are measured and servers that are not
// go through the same events.
func VerifMeasure() {
	topo := vTopologies[vnd.Param("topology")]
	n := 2
	if vnd.Param("topology") > 0 {
		n = 3
	}
	cod, flood := vnd.Bool(), vnd.Bool()
	clock := &vClock{sym: vnd.Param("sym") != 0}
	warm := clock.warmup()
	a := vNewNet(n, topo, flood, cod, 1)
	b := vNewNet(n, topo, flood, cod, 1)
	gens := []*transactionGenerator{{}, {}}
	lat := make([]vSamples, n)
	for _, s := range a.srv {
		s.latencySketch = newDistributionSketch(warm)
	}
	var made []time.Duration
	var reset [8]bool
	early := false
	step := func(at, from int, x, y any) (out, outB []des.OutgoingMessage) {
		clock.tick()
		had := len(a.srv[at].received)
		var known []bool
		for i := range made {
			_, there := a.srv[at].received[uint64(i+1)]
			known = append(known, there)
		}
		txgen = gens[0]
		out = a.srv[at].HandleMessage(x, a.srv[from], clock.now)
		txgen = gens[1]
		outB = b.srv[at].HandleMessage(y, b.srv[from], clock.now)
		for i := range made {
			_, there := a.srv[at].received[uint64(i+1)]
			if _, same := b.srv[at].received[uint64(i+1)]; same != there {
				vnd.Fail("measuring or resetting changes what is learned")
			}
			if there && !known[i] {
				if warm > clock.now {
					early = true
				} else {
					vnd.Assume(clock.now > warm)
					lat[at].v = append(lat[at].v, clock.now-made[i])
					vnd.Reach("latency")
				}
			}
		}
		if ba, is := x.(blockArrival); is {
			vnd.Assert(len(a.srv[at].received) == had+ba.n, "a generated transaction is not registered")
			for i := 0; i < ba.n; i++ {
				made = append(made, clock.now)
			}
		}
		vnd.Assert(len(out) == len(outB), "measuring or resetting changes what a server sends")
		for i := range out {
			p, q := out[i], outB[i]
			vnd.Assert(p.Delay == q.Delay && (p.To == nil) == (q.To == nil), "measuring or resetting changes what a server sends")
			if p.To != nil {
				vnd.Assert(a.id(p.To) == b.id(q.To), "measuring or resetting changes what a server sends")
			}
			vnd.Assert(vSamePayload(p.Payload, q.Payload), "measuring or resetting changes what a server sends")
		}
		if !reset[at] {
			vnd.Assert(a.srv[at].serverMetric == b.srv[at].serverMetric, "measuring changes the counters")
		}
		lat[at].check(a.srv[at].latencySketch, !clock.sym)
		return
	}
	put := func(at int, out, outB []des.OutgoingMessage) {
		for i, o := range out {
			if _, is := o.Payload.(blockArrival); is {
				continue
			}
			for j, e := range topo {
				d := -1
				if e == [2]int{at, a.id(o.To)} {
					d = 2 * j
				} else if e == [2]int{a.id(o.To), at} {
					d = 2*j + 1
				} else {
					continue
				}
				a.q[d] = append(a.q[d], o)
				b.q[d] = append(b.q[d], outB[i])
			}
		}
	}
	for s := 0; s < vnd.Param("k"); s++ {
		c := vnd.Choose(n + len(a.q) + 1)
		switch {
		case c < n:
			m := 1 + vnd.Choose(2)
			if len(made)+m > vnd.Param("n") {
				vnd.Stop()
			}
			x, y := step(c, c, blockArrival{m}, blockArrival{m})
			put(c, x, y)
		case c < n+len(a.q):
			d := c - n
			if len(a.q[d]) == 0 {
				vnd.Stop()
			}
			m, o := a.q[d][0], b.q[d][0]
			a.q[d], b.q[d] = a.q[d][1:], b.q[d][1:]
			to, from := topo[d/2][1-d%2], topo[d/2][d%2]
			x, y := step(to, from, m.Payload, o.Payload)
			put(to, x, y)
		default:
			for i, s := range a.srv {
				s.resetMetric()
				vnd.Assert(s.serverMetric == serverMetric{}, "counters are not reset")
				reset[i] = true
			}
			vnd.Reach("reset")
		}
	}
	if early {
		vnd.Reach("warming up")
	}
	vnd.Reach("end")
}

func vSamePayload(x, y any) bool {
	switch p := x.(type) {
	case codeword:
		q, is := y.(codeword)
		return is && p == q
	case ack:
		q, is := y.(ack)
		if !is || p.ackBlock != q.ackBlock || p.ackStart != q.ackStart || len(p.txs) != len(q.txs) {
			return false
		}
		for i := range p.txs {
			if p.txs[i] != q.txs[i] {
				return false
			}
		}
		return true
	}
	return x == y
}

// VerifReset decides that counters of any values start again from zero.
func VerifReset() {
	var s server
	s.decodedTransactions, s.receivedTransactions = vCount(), vCount()
	s.duplicateTransactions, s.receivedBytes = vCount(), vCount()
	s.resetMetric()
	vnd.Assert(s.serverMetric == serverMetric{}, "counters are not reset")
	vnd.Reach("end")
}

func vCount() int { return int(vnd.U64() >> 20) }
