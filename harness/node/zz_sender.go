package main

import (
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vRates struct {
	init, min, inc, dec float64
	queue               int
}

var vRateConfigs = []vRates{
	{130, 110, 45, 30, 1},
	{260, 50, 70, 20, 2},
	{40, 40, 33, 1, 4},
	{510, 10, 5, 90, 3},
	{10, 1, 50, 1, 150}, // for many losses at once
}

// VerifSender decides K02: any interleaving of loss reports, new transactions,
// send ticks and a queue that is drained at any time.
func VerifSender() {
	k := vnd.Param("k")
	from := vnd.Param("from")
	c := vRateConfigs[from+vnd.Choose(vnd.Param("configs"))]
	peerLoss, ourLoss := make(chan int, 100), make(chan int, 100)
	newTx := make(chan *ldpc.Transaction, 100)
	s := &sender{
		peerId:               "peer",
		encoder:              ldpc.NewEncoder(vSalt, vDegree(1), 1),
		cwRate:               c.init,
		rateIncreaseConstant: c.inc,
		rateDecreaseConstant: c.dec,
		minRate:              c.min,
		peerLoss:             peerLoss,
		ourLoss:              ourLoss,
		newTransaction:       newTx,
	}
	ch := make(chan Codeword, c.queue)
	vnd.Go(func() { s.loop(ch) })
	vnd.Yield()
	tx := vTx(0, 0)
	newTx <- tx
	vnd.Yield()

	rate, credit := c.init, 0.0
	var lost uint64   // losses observed here and not reported yet
	var want []uint64 // losses the codewords in the queue must carry
	check := func(cw Codeword) {
		vnd.Assert(uint64(cw.Loss) == want[0], "a codeword does not report exactly the losses not reported before")
		want = want[1:]
		names := ldpc.VMembers(cw.Codeword)
		vnd.Assert(len(names) == 1 && names[0] == ldpc.VName(tx, vSalt), "a codeword of something else")
	}
	now := uint64(0)
	sent, skipped, raised := false, false, false
	for step := 0; step < k; step++ {
		switch vnd.Choose(5) {
		case 0:
			l := 1 + vnd.Choose(2)
			if from > 0 {
				l = 1 + 219*vnd.Choose(2)
			}
			peerLoss <- l
			rate += c.inc * float64(l)
			raised = true
		case 1:
			l := vnd.U64()
			vnd.Assume(l < 1<<30)
			ourLoss <- int(l)
			lost += l
		case 2: // a tick
			now += 10 * vMs
			vnd.SetNow(now)
			vnd.Tick(10 * vMs)
			credit += 0.01 * rate
			for credit >= 1 {
				if credit < 1+1e-9 {
					vnd.Stop() // rounding would decide
				}
				credit--
				if len(want) < c.queue {
					want = append(want, lost)
					lost = 0
					rate -= c.dec
					if rate < c.min {
						rate = c.min
						vnd.Reach("minimum")
					}
					if skipped {
						vnd.Reach("sent after skipping")
					}
					if raised {
						vnd.Reach("raised")
					}
					sent = true
				} else {
					skipped = true
					vnd.Reach("skipped")
				}
			}
			if credit > 1-1e-9 {
				vnd.Stop()
			}
		case 3: // the connection takes one codeword, or all
			if len(want) == 0 {
				vnd.Stop()
			}
			all := vnd.Bool()
			for len(want) > 0 {
				vnd.Assert(len(ch) > 0, "fewer codewords than the rate allows")
				check(<-ch)
				if !all {
					break
				}
			}
		case 4:
			now += vSec
			vnd.SetNow(now)
			vnd.Tick(vSec)
		}
		vnd.Yield()
		vnd.Assert(len(ch) == len(want), "not the number of codewords the rate allows")
	}
	for len(want) > 0 {
		check(<-ch)
	}
	if sent {
		vnd.Reach("sent")
	}
	vnd.Reach("end")
}
