package main

import (
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifBusy decides K04 with peers that do not keep up for a while: nothing is
// taken from the controller until everything has been put in, and then in any
// order of peers.
func VerifBusy() {
	np, k := vnd.Param("peers"), vnd.Param("k")
	sketch, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	c := &controller{
		newPeer:            make(chan *peer),
		decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		localTransaction:   make(chan *ldpc.Transaction, 1000),
		delaySketch:        sketch,
		warmupTime:         time.Duration(vSec),
	}
	vnd.SetNow(vSec)
	vnd.Go(func() { c.loop() })
	var ends [][2]chan *ldpc.Transaction
	var want, got [][2]int
	size := vnd.Choose(2)
	for i := 0; i < np; i++ {
		e := [2]chan *ldpc.Transaction{make(chan *ldpc.Transaction, size), make(chan *ldpc.Transaction, size)}
		ends = append(ends, e)
		want, got = append(want, [2]int{}), append(got, [2]int{})
		c.newPeer <- &peer{e[0], e[1]}
		vnd.Yield()
	}
	var txs []*ldpc.Transaction
	for i := 0; i < k; i++ {
		t := vTx(i, vSec/1000)
		txs = append(txs, t)
		c3 := vnd.Choose(3)
		for p := range ends {
			if c3 != 2 {
				want[p][0] |= 1 << uint(i)
			}
			want[p][1] |= 1 << uint(i)
		}
		if c3 == 0 {
			c.localTransaction <- t
		} else {
			c.decodedTransaction <- ldpc.DecodedTransaction{t, c3 == 2}
		}
	}
	vnd.Yield()
	first := vnd.Choose(np)
	for r := 0; r < 4*k*np+4; r++ {
		for j := range ends {
			p := (j + first) % np
			for side := range ends[p] {
				select {
				case t := <-ends[p][side]:
					i := vIndex(t, txs)
					vnd.Assert(got[p][side]>>uint(i)&1 == 0, "a transaction is passed to one side twice")
					got[p][side] |= 1 << uint(i)
				default:
				}
				vnd.Yield()
			}
		}
	}
	for p := range ends {
		vnd.Assert(got[p][0] == want[p][0], "a sending side is not given exactly the unexpired transactions")
		vnd.Assert(got[p][1] == want[p][1], "a receiving side is not given every transaction")
	}
	vnd.Reach("end")
}
