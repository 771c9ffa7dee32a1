package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

func vAny() transaction { return transaction{vnd.U64(), time.Duration(vnd.U64())} }

// VerifTransactions decides S06: XOR of any three transactions, and identity.
func VerifTransactions() {
	a, b, c := vAny(), vAny(), vAny()
	a0, b0 := transaction{a.idx, a.ts}, transaction{b.idx, b.ts}
	zero := transaction{}
	ab := a.XOR(b)
	vnd.Assert(a == a0 && b == b0, "combining changes a transaction")
	vnd.Assert(ab == b.XOR(a), "the order of combining matters")
	vnd.Assert(ab.XOR(c) == a.XOR(b.XOR(c)), "the grouping of combining matters")
	vnd.Assert(ab.XOR(b) == a, "a transaction is not recovered from a combination")
	vnd.Assert(zero.XOR(a) == a && a.XOR(zero) == a, "the zero value is not neutral")
	vnd.Assert(a.XOR(a) == zero, "a transaction does not cancel itself")
	vnd.Assert((a.Hash() == b.Hash()) == (a.idx == b.idx), "the hash does not tell transactions by their number")
	vnd.Assert(a == a0, "hashing changes a transaction")
	vnd.Reach("end")
}

// VerifGenerated decides S06: what servers generate, at any times, after any
// number of earlier transactions.
func VerifGenerated() {
	n, k, sym := vnd.Param("servers"), vnd.Param("k"), vnd.Param("sym") != 0
	TXSIZE = 100
	start := []uint64{0, 1<<8 - 2, 1<<16 - 2, 1<<32 - 2, 1<<53 - 1}[vnd.Choose(5)] // generated before
	txgen = &transactionGenerator{start}
	srv := newServers(&des.Simulator{}, n, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1, initialFlood: vnd.Bool()})
	p := &vPeer{0}
	algs := make([]*vAlg, n)
	for i, s := range srv {
		algs[i] = &vAlg{}
		s.handlers[p] = peer{algs[i], time.Second}
		s.peers = append(s.peers, p)
	}
	var seen []uint64
	now := uint64(0)
	for i := 0; i < k; i++ {
		if sym {
			now += vTs()
		} else {
			now += 1234567891
		}
		at := vnd.Choose(n)
		m := vnd.Choose(4)
		algs[at].given = nil
		out := srv[at].HandleMessage(blockArrival{m}, srv[at], time.Duration(now))
		got := algs[at].given
		for _, o := range out {
			if b, is := o.Payload.(initialBroadcast); is {
				got = append(got, b.payload)
			}
		}
		vnd.Assert(len(got) == m, "not as many transactions are generated as arrive")
		for _, g := range got {
			d := g.Symbol
			vnd.Assert(d.idx > start, "a number is used again")
			for _, x := range seen {
				vnd.Assert(x != d.idx, "two transactions with the same number")
			}
			seen = append(seen, d.idx)
			vnd.Assert(d.ts == time.Duration(now), "a transaction does not carry the time of its generation")
			vnd.Assert(g.Hash == d.Hash(), "a transaction is not hashed right")
		}
	}
	if len(seen) > 2 {
		vnd.Reach("several")
	}
	vnd.Reach("end")
}
