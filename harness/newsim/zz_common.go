package main

import (
	"math/rand"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vTx = riblt.HashedSymbol[transaction]

// vMake returns transaction number i, generated at the given time.
func vMake(i int, ts uint64) vTx {
	t := transaction{uint64(i + 1), time.Duration(ts)}
	return vTx{Symbol: t, Hash: t.Hash()}
}

func vTs() uint64 {
	x := vnd.U64()
	vnd.Assume(x < 1<<50)
	return x
}

func vServer() *server {
	return &server{
		handlers: make(map[des.Module]peer),
		rng:      rand.New(rand.NewSource(1)),
		received: make(map[uint64]struct{}),
	}
}

// vEnd is one end of a link.
type vEnd struct {
	alg   algorithm
	other des.Module
	delay time.Duration
}

func (e vEnd) drain() (out []any) {
	for _, m := range e.alg.collectOutgoingMessages(e.other, e.delay, nil) {
		vnd.Assert(m.To == e.other && m.Delay == e.delay, "a message has the wrong destination or delay")
		out = append(out, m.Payload)
	}
	vnd.Assert(len(e.alg.collectOutgoingMessages(e.other, e.delay, nil)) == 0, "a message would be sent twice")
	return
}

// vCodingLink connects two servers. seed 0 leaves the random choices open.
func vCodingLink(shards int, overhead float64, seed int) (a, b vEnd, sa, sb *server) {
	if seed == 0 {
		RNG = rand.New(vnd.Source{})
	} else {
		RNG = rand.New(rand.NewSource(int64(seed)))
	}
	sa, sb = vServer(), vServer()
	connectCodingServers(sa, sb, 7*time.Millisecond, senderConfig{controlOverhead: overhead, numShards: shards})
	a = vEnd{sa.handlers[sb].algorithm, sb, 7 * time.Millisecond}
	b = vEnd{sb.handlers[sa].algorithm, sa, 7 * time.Millisecond}
	return
}

func vMask(list []vTx, all []vTx, what string) int {
	m := 0
	for _, t := range list {
		hit := -1
		for i, x := range all {
			if t.Symbol.idx == x.Symbol.idx {
				hit = i
			}
		}
		vnd.Assert(hit >= 0, what+": not a transaction")
		vnd.Assert(t.Symbol.ts == all[hit].Symbol.ts, what+": altered")
		vnd.Assert(t.Hash == all[hit].Hash, what+": wrong hash")
		vnd.Assert(m>>uint(hit)&1 == 0, what+": twice")
		m |= 1 << uint(hit)
	}
	return m
}

// vIsBlock tells whether the first coded symbol of a block stands for exactly
// the given transactions: nothing is left when they are removed from it.
func vIsBlock(c riblt.CodedSymbol[transaction], txs []vTx, m int) bool {
	var d riblt.Decoder[transaction]
	for i, t := range txs {
		if m>>uint(i)&1 != 0 {
			d.AddHashedSymbol(t)
		}
	}
	d.AddCodedSymbol(c)
	d.TryDecode()
	return d.Decoded() && len(d.Remote()) == 0 && len(d.Local()) == 0
}

// vBlock tells which transactions the first coded symbol of a block stands for.
func vBlock(c riblt.CodedSymbol[transaction], txs []vTx) int {
	for m := 0; m < 1<<uint(len(txs)); m++ {
		if vIsBlock(c, txs, m) {
			return m
		}
	}
	vnd.Fail("a block holds something else than the transactions given")
	return 0
}

func vSeed(seed int64) { RNG = rand.New(rand.NewSource(seed)) }
