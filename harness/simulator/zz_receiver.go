package main

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifReceiver decides S02: a server with two links gets any codewords.
func VerifReceiver() {
	n, k := vnd.Param("n"), vnd.Param("k")
	th := vnd.Int(0, vnd.Param("th"))
	th = int(vnd.Concretize(uint64(th)))
	loss4 := vnd.Choose(3) // undecoded codewords tolerated, in quarters
	srv := vServers(3, [][2]int{{0, 1}, {0, 2}}, 1, vConfig(th, 1, float64(loss4)/4, 0))
	txs := vMakes(n)
	known := 0
	var all []int     // everything received on either link
	var cur [2][]int  // the codewords of each link's block
	var acked [2]bool // the block was acknowledged
	for step := 0; step < k; step++ {
		l := vnd.Choose(2)
		r := srv[0].handlers[srv[1+l]].receiver
		m := 1 + vnd.Choose(1<<uint(n)-1)
		start := vnd.Bool()
		got := r.onCodeword(codeword{vCodeword(txs, m), start})
		if start {
			cur[l], acked[l] = nil, false
		}
		cur[l] = append(cur[l], m)
		all = append(all, m)
		before := known
		for again := true; again; {
			again = false
			for _, c := range all {
				if u := c &^ known; u != 0 && u&(u-1) == 0 {
					known |= u
					again = true
				}
			}
		}
		fresh := 0
		for _, t := range got {
			i := vIndex(t, txs, "decoded")
			vnd.Assert(fresh>>uint(i)&1 == 0, "a transaction is handed over twice")
			fresh |= 1 << uint(i)
		}
		vnd.Assert(fresh == known&^before, "not exactly the newly decoded transactions are handed over")
		vnd.Assert(len(r.outbox) == 1, "a codeword is not answered exactly once")
		a, is := r.outbox[0].(ack)
		vnd.Assert(is, "the answer is no acknowledgement")
		r.outbox = r.outbox[:0]
		open := 0
		for _, c := range cur[l] {
			if c&^known != 0 {
				open++
			}
		}
		want := !acked[l] && len(cur[l]) > th && open*4 <= len(cur[l])*loss4
		vnd.Assert(a.ackBlock == want, "a block is not acknowledged exactly when enough of it has arrived and is decoded")
		if want {
			acked[l] = true
			vnd.Reach("acknowledged")
			if open > 0 {
				vnd.Reach("tolerated")
			}
		}
		if fresh&(fresh-1) != 0 {
			vnd.Reach("several")
		}
		if a.ackBlock && len(cur[l]) > th+1 {
			vnd.Reach("later")
		}
	}
	for _, h := range srv[0].handlers {
		vnd.Assert(len(h.receiver.outbox) == 0, "an answer on another link")
	}
	vnd.Reach("end")
}
