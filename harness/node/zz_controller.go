package main

import (
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifController decides K04: any interleaving of local, decoded and expired
// transactions with peers joining.
func VerifController() {
	k := vnd.Param("k")
	sketch, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	c := &controller{
		newPeer:            make(chan *peer),
		decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		localTransaction:   make(chan *ldpc.Transaction, 1000),
		delaySketch:        sketch,
		warmupTime:         time.Duration(3 * vSec / 2),
	}
	now := uint64(vSec)
	vnd.SetNow(now)
	start := now
	vnd.Go(func() { c.loop() })
	vnd.Yield()

	type end struct {
		toSender, toReceiver     chan *ldpc.Transaction
		wantSender, wantReceiver []int
	}
	var peers []*end
	var txs []*ldpc.Transaction
	counted, warm := 0, false
	expired := false
	for step := 0; step < k; step++ {
		switch vnd.Choose(5) {
		case 0:
			p := &end{toSender: make(chan *ldpc.Transaction, 100), toReceiver: make(chan *ldpc.Transaction, 100)}
			peers = append(peers, p)
			c.newPeer <- &peer{p.toSender, p.toReceiver}
		case 1:
			t := vTx(len(txs), now/1000)
			for _, p := range peers {
				p.wantSender = append(p.wantSender, len(txs))
				p.wantReceiver = append(p.wantReceiver, len(txs))
			}
			txs = append(txs, t)
			c.localTransaction <- t
		case 2, 3:
			x := vnd.Bool()
			t := vTx(len(txs), now/1000)
			for _, p := range peers {
				if !x {
					p.wantSender = append(p.wantSender, len(txs))
				}
				p.wantReceiver = append(p.wantReceiver, len(txs))
			}
			txs = append(txs, t)
			c.decodedTransaction <- ldpc.DecodedTransaction{t, x}
			if warm {
				counted++
			}
			expired = expired || x && len(peers) > 0
		case 4:
			now += vSec
			vnd.SetNow(now)
			vnd.Tick(vSec)
			if now-start > 3*vSec/2 {
				warm = true
				vnd.Reach("warm")
			}
		}
		vnd.Yield()
	}
	for _, p := range peers {
		vnd.Assert(len(p.toSender) == len(p.wantSender), "a sending side is not given each unexpired transaction exactly once")
		vnd.Assert(len(p.toReceiver) == len(p.wantReceiver), "a receiving side is not given each transaction exactly once")
		for _, i := range p.wantSender {
			vnd.Assert(vIndex(<-p.toSender, txs) == i, "a sending side is given another transaction")
		}
		for _, i := range p.wantReceiver {
			vnd.Assert(vIndex(<-p.toReceiver, txs) == i, "a receiving side is given another transaction")
		}
	}
	vnd.Assert(c.delaySketch.GetCount() == float64(counted), "delays are not recorded exactly once per transaction decoded after the warmup")
	if len(peers) > 1 && len(txs) > 0 {
		vnd.Reach("peers")
	}
	if expired {
		vnd.Reach("expired")
	}
	vnd.Reach("end")
}
