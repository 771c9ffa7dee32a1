package main

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vScript makes the choices of a long run: fixed pseudo-random ones except at
// the steps the harness opens.
type vScript struct {
	seed uint64
	free bool
}

func (v *vScript) pick(n int) int {
	v.seed = v.seed*6364136223846793005 + 1442695040888963407
	if v.free {
		return vnd.Choose(n)
	}
	return int(v.seed>>33) % n
}

var vLongConfigs = []vLimits{{1, 1}, {2, 0.5}, {5, 0.5}, {3, 0.125}, {4, 0.25}}

// VerifSenderLong decides S01 on long runs: one arbitrary step anywhere, big
// blocks and windows.
func VerifSenderLong() {
	k, every := vnd.Param("k"), vnd.Param("every")
	c := vLongConfigs[vnd.Choose(vnd.Param("configs"))]
	sc := &vScript{seed: uint64(vnd.Param("seed"))}
	srv := vServers(2, [][2]int{{0, 1}}, 1, vConfig(c.th, c.overhead, 0, 0))
	s := srv[0].handlers[srv[1]].sender
	var txs []vTx
	for i := 0; i < k; i++ {
		txs = append(txs, vMake(1000+i, uint64(i)*17))
	}
	min := int(float64(c.th) / c.overhead)
	given, from, block, window, open, number := 0, 0, 0, c.th, false, 0
	var inflight []int
	at := every * vnd.Choose((k+every-1)/every)
	for step := 0; step < k; step++ {
		sc.free = step == at
		may := sc.pick(2) == 1
		switch op := sc.pick(8); {
		case op < 5:
			s.onTransaction(txs[given], may)
			given++
		case op < 6:
			s.tryFillSendWindow(may)
		default: // some of the oldest codewords are acknowledged
			may = may && len(inflight) > 0
			allow := may
			may = false
			for n := 1 + sc.pick(4); n > 0 && len(inflight) > 0; n-- {
				b := inflight[0]
				inflight = inflight[1:]
				ok := b == number && open && n == 1 && sc.pick(2) == 1
				may = n == 1 && allow
				s.onAck(ack{ok}, may)
				if ok {
					open = false
					vnd.Reach("acknowledged")
				}
				if n > 1 && len(s.outbox) > 0 {
					break
				}
			}
		}
		for _, o := range s.outbox {
			cw, is := o.(codeword)
			vnd.Assert(is, "the sender sends something else than codewords")
			vnd.Assert(len(inflight) < window, "a codeword outside the window")
			if cw.newBlock {
				vnd.Assert(!open, "a block is started before the last one was acknowledged")
				vnd.Assert(may, "a block is started without permission")
				vnd.Assert(given-from >= min, "a block is started with too few transactions")
				block = 0
				for i := from; i < given; i++ {
					block |= 1 << uint(i)
				}
				window = int(float64(given-from) * c.overhead)
				if window < 1 {
					window = 1
				}
				from = given
				open = true
				number++
				vnd.Reach("block")
				if number > 1 {
					vnd.Reach("second block")
				}
			} else {
				vnd.Assert(open, "a codeword outside a block")
			}
			m := vMembers(cw.Codeword, txs[:given])
			vnd.Assert(m != 0 && m&^block == 0, "a codeword of a block stands for transactions outside the block")
			inflight = append(inflight, number)
		}
		s.outbox = s.outbox[:0]
		if open {
			vnd.Assert(len(inflight) > 0, "a block that is not acknowledged is not sent any more")
		}
		if may {
			vnd.Assert(len(inflight) >= window || (!open && given-from < min), "nothing is sent although there is something to send")
		}
	}
	vnd.Reach("end")
}

// VerifReceiverLong decides S02 on long blocks with one arbitrary codeword.
func VerifReceiverLong() {
	n, k, every := vnd.Param("n"), vnd.Param("k"), vnd.Param("every")
	th := []int{0, 9, 30}[vnd.Choose(3)]
	loss8 := []int{0, 1, 3}[vnd.Choose(3)] // undecoded codewords tolerated, in eighths
	sc := &vScript{seed: uint64(vnd.Param("seed"))}
	srv := vServers(3, [][2]int{{0, 1}, {0, 2}}, 1, vConfig(th, 1, float64(loss8)/8, 0))
	var txs []vTx
	for i := 0; i < n; i++ {
		txs = append(txs, vMake(1000+i, uint64(i)*17))
	}
	known := 0
	var all []int
	var cur [2][]int
	var acked [2]bool
	at := every * vnd.Choose((k+every-1)/every)
	for step := 0; step < k; step++ {
		sc.free = step == at
		l := sc.pick(2)
		r := srv[0].handlers[srv[1+l]].receiver
		base := sc.pick(n - 1)
		m := (1 + sc.pick(3)) << uint(base)
		sc.free = false
		for j := sc.pick(3); j > 0; j-- {
			m |= 1 << uint(sc.pick(n))
		}
		start := step == 0
		if step == at {
			start = vnd.Choose(2) == 1
		}
		got := r.onCodeword(codeword{vCodeword(txs, m), start})
		if start {
			cur[l], acked[l] = nil, false
		}
		cur[l] = append(cur[l], m)
		all = append(all, m)
		before := known
		for again := true; again; {
			again = false
			for _, c := range all {
				if u := c &^ known; u != 0 && u&(u-1) == 0 {
					known |= u
					again = true
				}
			}
		}
		fresh := 0
		for _, t := range got {
			i := vIndex(t, txs, "decoded")
			vnd.Assert(fresh>>uint(i)&1 == 0, "a transaction is handed over twice")
			fresh |= 1 << uint(i)
		}
		vnd.Assert(fresh == known&^before, "not exactly the newly decoded transactions are handed over")
		vnd.Assert(len(r.outbox) == 1, "a codeword is not answered exactly once")
		a, is := r.outbox[0].(ack)
		vnd.Assert(is, "the answer is no acknowledgement")
		r.outbox = r.outbox[:0]
		open := 0
		for _, c := range cur[l] {
			if c&^known != 0 {
				open++
			}
		}
		want := !acked[l] && len(cur[l]) > th && open*8 <= len(cur[l])*loss8
		vnd.Assert(a.ackBlock == want, "a block is not acknowledged exactly when enough of it has arrived and is decoded")
		if want {
			acked[l] = true
			vnd.Reach("acknowledged")
			if open > 0 {
				vnd.Reach("tolerated")
			}
		}
		if fresh&(fresh-1) != 0 {
			vnd.Reach("several")
		}
	}
	vnd.Reach("end")
}
