package main

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifSender decides S01: one sender, any sequence of transactions,
// acknowledgements and permissions to start a block.
func VerifSender() {
	k := vnd.Param("k")
	c := vSenderConfigs[vnd.Choose(vnd.Param("configs"))]
	srv := vServers(2, [][2]int{{0, 1}}, int64(vnd.Param("seed")), vConfig(c.th, c.overhead, 0, 0))
	s := srv[0].handlers[srv[1]].sender
	txs := vMakes(k)
	min := int(float64(c.th) / c.overhead)

	given := 0         // transactions given
	from := 0          // first transaction not in a block yet
	var block int      // the transactions of the block being sent
	window := c.th     // codewords allowed
	open := false      // a block is being sent
	number := 0        // blocks started
	var inflight []int // block of each codeword not acknowledged
	done := map[int]bool{}
	for step := 0; step < k; step++ {
		may := vnd.Bool()
		switch vnd.Choose(4) {
		case 0:
			s.onTransaction(txs[given], may)
			given++
		case 1: // the oldest codeword is acknowledged, and perhaps its block
			if len(inflight) == 0 {
				vnd.Stop()
			}
			b := inflight[0]
			inflight = inflight[1:]
			ok := false
			if b == number && open {
				ok = vnd.Bool()
			}
			s.onAck(ack{ok}, may)
			if ok {
				open = false
				done[b] = true
				vnd.Reach("acknowledged")
			}
		case 2:
			s.tryFillSendWindow(may)
		case 3: // all of them are acknowledged
			if len(inflight) < 2 || !may {
				vnd.Stop()
			}
			n := len(inflight)
			for i := 0; i < n; i++ {
				s.onAck(ack{false}, false)
			}
			inflight = nil
			s.tryFillSendWindow(true)
		}
		for _, o := range s.outbox {
			cw, is := o.(codeword)
			vnd.Assert(is, "the sender sends something else than codewords")
			vnd.Assert(len(inflight) < window, "a codeword outside the window")
			if cw.newBlock {
				vnd.Assert(!open, "a block is started before the last one was acknowledged")
				vnd.Assert(may, "a block is started without permission")
				vnd.Assert(given-from >= min, "a block is started with too few transactions")
				block = 0
				for i := from; i < given; i++ {
					block |= 1 << uint(i)
				}
				window = int(float64(given-from) * c.overhead)
				if window < 1 {
					window = 1
				}
				from = given
				open = true
				number++
				vnd.Reach("block")
				if number > 1 {
					vnd.Reach("second block")
				}
			} else {
				vnd.Assert(open, "a codeword outside a block")
			}
			m := vMembers(cw.Codeword, txs[:given])
			vnd.Assert(m != 0 && m&^block == 0, "a codeword of a block stands for transactions outside the block")
			inflight = append(inflight, number)
		}
		s.outbox = s.outbox[:0]
		if open {
			vnd.Assert(len(inflight) > 0, "a block that is not acknowledged is not sent any more")
			if case3 := len(inflight) >= window; case3 {
				vnd.Reach("full")
			}
		}
		if may {
			vnd.Assert(len(inflight) >= window || (!open && given-from < min), "nothing is sent although there is something to send")
		}
	}
	vnd.Reach("end")
}
