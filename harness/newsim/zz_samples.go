package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifSamples decides M01 for one server with any links: transactions arrive
// in any order and repeatedly, from any neighbour and in any way.
func VerifSamples() {
	np, n, k := vnd.Param("peers"), vnd.Param("n"), vnd.Param("k")
	flood := vnd.Bool()
	clock := &vClock{sym: vnd.Param("sym") != 0}
	warm := clock.warmup()
	TXSIZE = 100
	txgen = &transactionGenerator{}
	s := newServers(&des.Simulator{}, 1, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1, initialFlood: flood})[0]
	s.latencySketch = newDistributionSketch(warm)
	var peers []*vPeer
	for i := 0; i < np; i++ {
		p := &vPeer{i}
		peers = append(peers, p)
		s.handlers[p] = peer{&vAlg{}, time.Second}
		s.peers = append(s.peers, p)
	}
	var txs []vTx
	for i := 0; i < n; i++ {
		txs = append(txs, vMake(1000+i, uint64(i)*uint64(time.Second)/4))
	}
	known := 0
	var want vSamples
	early := false
	for step := 0; step < k; step++ {
		clock.tick()
		learn := func(i int) vTx {
			if known>>uint(i)&1 != 0 {
				vnd.Reach("duplicate")
				return txs[i]
			}
			known |= 1 << uint(i)
			if warm > clock.now {
				early = true
			} else {
				vnd.Assume(clock.now > warm)
				want.v = append(want.v, clock.now-time.Duration(i)*time.Second/4)
				vnd.Reach("latency")
			}
			return txs[i]
		}
		switch c := vnd.Choose(1 + 2*np); {
		case c == 0:
			s.HandleMessage(blockArrival{1}, s, clock.now)
		case c <= np:
			i := vnd.Choose(n)
			s.HandleMessage(initialBroadcast{learn(i)}, peers[c-1], clock.now)
		default:
			var l []vTx
			for j := vnd.Choose(3); j > 0; j-- {
				l = append(l, learn(vnd.Choose(n)))
			}
			s.HandleMessage(vMsg{l, 1}, peers[c-1-np], clock.now)
		}
		want.check(s.latencySketch, !clock.sym)
	}
	if early {
		vnd.Reach("warming up")
	}
	vnd.Reach("end")
}
