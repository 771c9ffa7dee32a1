package main

import (
	"github.com/yangl1996/rateless-set-reconcile/riblt"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifShards decides N01: which blocks of a cycle take a transaction, at the
// sender and at the receiver.
func VerifShards() {
	shards := vnd.Param("shards")
	a, b, _, _ := vCodingLink(shards, 0.1, vnd.Param("seed"))
	n := vnd.Param("n")
	var txs []vTx
	for i := 0; i < n; i++ {
		txs = append(txs, vMake(i, uint64(i)*1000))
	}
	// transaction 0 starts the sender, the others arrive during the first cycle
	at := make([]int, n)
	for i := 1; i < n; i++ {
		at[i] = 1 + vnd.Choose(shards)
	}
	rounds := 2 * shards
	if n == 1 {
		rounds = shards
	}
	taken := make([]int, n)
	with := -1 // the transaction the receiver has
	if n > 1 {
		with = vnd.Choose(n)
	} else {
		with = 0
	}
	b.alg.forwardTransaction(txs[with])
	a.alg.forwardTransaction(txs[0])
	var none riblt.Encoder[transaction]
	for r := 0; r < rounds; r++ {
		out := a.drain()
		vnd.Assert(len(out) >= 1, "no block was started")
		cw, is := out[0].(codeword)
		vnd.Assert(is && cw.newBlock, "the first message is not the start of a block")
		sel := vBlock(cw.CodedSymbol, txs)
		for i := range txs {
			if sel>>uint(i)&1 != 0 {
				taken[i]++
				vnd.Assert(r >= at[i] && r < at[i]+shards, "a transaction was put into a block too early or too late")
			}
		}
		// the same block of an empty sender shows what the receiver selects
		has := sel>>uint(with)&1 != 0
		cw.CodedSymbol = none.ProduceNextCodedSymbol()
		none.Reset()
		got := b.alg.handleMessage(cw)
		vnd.Assert(len(got) == 0, "transactions from an empty block")
		res := b.drain()
		vnd.Assert(len(res) == 1, "not exactly one answer")
		k, is := res[0].(ack)
		vnd.Assert(is && k.ackBlock && k.ackStart, "the block is not complete")
		m := vMask(k.txs, txs, "receiver")
		vnd.Assert(m == 0 || m == 1<<uint(with), "a transaction nobody has")
		if taken[with] == 0 && r < at[with] {
			// not yet at the sender: the receiver may select it
		} else if has {
			vnd.Assert(m != 0, "the receiver leaves out what the sender selects")
			vnd.Reach("both")
		} else if r < at[with]+shards {
			vnd.Assert(m == 0, "the receiver selects what the sender leaves out")
			vnd.Reach("neither")
		}
		if m != 0 {
			b.alg.forwardTransaction(txs[with])
		}
		for i := 1; i < n; i++ {
			if at[i] == r+1 {
				a.alg.forwardTransaction(txs[i])
			}
		}
		k0 := vnd.Param("acks")
		for k := 0; k < k0; k++ {
			a.alg.handleMessage(ack{ackBlock: k == k0-1, ackStart: k == 0})
			if k < k0-1 {
				a.drain()
			}
		}
	}
	for i := range txs {
		vnd.Assert(taken[i] == 1, "a transaction is not in exactly one block of a cycle")
	}
	vnd.Reach("end")
}
