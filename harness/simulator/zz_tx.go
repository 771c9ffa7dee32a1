package main

import (
	"time"

	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

func vAny() transaction { return transaction{vnd.U64(), time.Duration(vnd.U64())} }

// VerifTransactions decides S06: XOR of any three transactions, and identity.
func VerifTransactions() {
	a, b, c := vAny(), vAny(), vAny()
	a0, b0 := transaction{a.idx, a.ts}, transaction{b.idx, b.ts}
	zero := transaction{}
	ab := a.XOR(b)
	vnd.Assert(a == a0 && b == b0, "combining changes a transaction")
	vnd.Assert(ab == b.XOR(a), "the order of combining matters")
	vnd.Assert(ab.XOR(c) == a.XOR(b.XOR(c)), "the grouping of combining matters")
	vnd.Assert(ab.XOR(b) == a, "a transaction is not recovered from a combination")
	vnd.Assert(zero.XOR(a) == a && a.XOR(zero) == a, "the zero value is not neutral")
	vnd.Assert(a.XOR(a) == zero, "a transaction does not cancel itself")
	ha, hb := a.Hash(), b.Hash()
	vnd.Assert(a == a0 && b == b0, "hashing changes a transaction")
	eq := len(ha) == len(hb)
	for i := range ha {
		eq = vnd.And(eq, i < len(hb) && ha[i] == hb[i])
	}
	vnd.Assert(eq == (a.idx == b.idx), "the hash does not tell transactions by their number")
	vnd.Reach("end")
}

// VerifGenerated decides S06: what servers generate, at any times, after any
// number of earlier transactions.
func VerifGenerated() {
	n, k, sym := vnd.Param("servers"), vnd.Param("k"), vnd.Param("sym") != 0
	start := []uint64{0, 1<<8 - 2, 1<<16 - 2, 1<<32 - 2, 1<<53 - 1}[vnd.Choose(5)] // generated before
	txgen = &transactionGenerator{start}
	srv := vServers(n, nil, 1, vConfig(1, 1, 0, 0))
	var seen []uint64
	now := uint64(0)
	for i := 0; i < k; i++ {
		if sym {
			now += vTs()
		} else {
			now += 1234567891
		}
		s := srv[vnd.Choose(n)]
		m := vnd.Choose(4)
		out := s.HandleMessage(blockArrival{m}, s, time.Duration(now))
		c := 0
		for _, o := range out {
			lp, is := o.Payload.(loopback)
			if !is {
				continue
			}
			d := lp.tx.Data()
			vnd.Assert(d.idx >= start, "a number is used again")
			for _, x := range seen {
				vnd.Assert(x != d.idx, "two transactions with the same number")
			}
			seen = append(seen, d.idx)
			vnd.Assert(d.ts == time.Duration(now), "a transaction does not carry the time of its generation")
			c++
		}
		vnd.Assert(c == m, "not as many transactions are generated as arrive")
	}
	if len(seen) > 2 {
		vnd.Reach("several")
	}
	vnd.Reach("end")
}
