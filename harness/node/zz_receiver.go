package main

import (
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifReceiver decides K03: codewords over any members at any times,
// interleaved with transactions learned elsewhere. It may begin with a burst
// of codewords.
func VerifReceiver() {
	n, k := vnd.Param("n"), vnd.Param("k")
	txs := vTxs(n)
	timeout := vnd.U64()
	vnd.Assume(timeout > 0 && timeout < 1<<50)
	sketch, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	peerLoss, ourLoss := make(chan int, 100), make(chan int, 100)
	decoded := make(chan ldpc.DecodedTransaction, 1000)
	newTx := make(chan *ldpc.Transaction, 100)
	r := &receiver{
		peerId:             "peer",
		decoder:            ldpc.NewDecoder(vSalt, 1000),
		peerLoss:           peerLoss,
		ourLoss:            ourLoss,
		decodedTransaction: decoded,
		newTransaction:     newTx,
		timeout:            time.Duration(timeout),
		delaySketch:        sketch,
	}
	ch := make(chan Codeword, 1000)
	vnd.Go(func() { r.decode(ch) })
	vnd.Yield()

	type item struct {
		at uint64
		m  int
	}
	var window []item
	var all []int // everything received
	retired := 0  // the first of them that have been retired
	known := 0
	now := uint64(1000)
	vnd.SetNow(now)
	receive := func(m int, rep uint64) {
		ch <- Codeword{ldpc.VMake(vPick(txs, m), vSalt), int(rep), 0}
		vnd.Yield()
		loss := 0
		for len(window) > 0 && now-window[0].at >= timeout {
			if window[0].m&^known != 0 {
				loss++
				vnd.Reach("lost")
			} else {
				vnd.Reach("retired")
			}
			window = window[1:]
			retired++
		}
		window = append(window, item{now, m})
		all = append(all, m)
		sum := 0
		for len(ourLoss) > 0 {
			sum += <-ourLoss
		}
		vnd.Assert(sum == loss, "not exactly the codewords that timed out undecoded are counted as lost")
		if rep > 0 {
			vnd.Assert(len(peerLoss) == 1, "the peer's report is not forwarded exactly once")
			vnd.Assert(uint64(<-peerLoss) == rep, "the peer's report is changed")
		}
	}
	// a burst of codewords none of which can be decoded yet
	for i := 0; i < vnd.Param("burst"); i++ {
		receive([]int{3, 7, 5, 6}[i%4], 0)
	}
	for step := 0; step < k; step++ {
		before := known
		switch vnd.Choose(3) {
		case 0: // a codeword
			dt := vnd.U64()
			vnd.Assume(dt < 1<<50)
			now += dt
			vnd.SetNow(now)
			m := vnd.Choose(1 << uint(n)) // may be empty
			rep := vnd.U64()
			vnd.Assume(rep < 1<<30)
			receive(m, rep)
		case 1: // a transaction learned elsewhere
			i := vnd.Choose(n)
			newTx <- txs[i]
			vnd.Yield()
			known |= 1 << uint(i)
			before = known
		case 2:
			vnd.Tick(vSec)
			vnd.Yield()
		}
		for again := true; again; {
			again = false
			for _, c := range all {
				if u := c &^ known; u != 0 && u&(u-1) == 0 {
					known |= u
					again = true
				}
			}
		}
		fresh := 0
		for len(decoded) > 0 {
			d := <-decoded
			i := vIndex(d.Transaction, txs)
			late, early := false, false
			for j, c := range all {
				if c>>uint(i)&1 != 0 && j < retired {
					late = true
				} else if c>>uint(i)&1 != 0 {
					early = true
				}
			}
			vnd.Assert(late || !d.Expired, "a transaction is marked as expired although no codeword of it was retired")
			vnd.Assert(early || d.Expired, "a transaction is not marked as expired although every codeword of it was retired")
			if d.Expired {
				vnd.Reach("expired")
			}
			vnd.Assert(fresh>>uint(i)&1 == 0, "a transaction is passed on twice")
			fresh |= 1 << uint(i)
		}
		vnd.Assert(fresh == known&^before, "not exactly the newly decoded transactions are passed on")
		vnd.Assert(len(ourLoss) == 0 && len(peerLoss) == 0, "a report out of nowhere")
		if fresh != 0 {
			vnd.Reach("decoded")
		}
	}
	vnd.Reach("end")
}
