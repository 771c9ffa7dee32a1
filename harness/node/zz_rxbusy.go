package main

import (
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifReceiverBusy decides K03 when the sender and the controller are slow to
// take what the receiver has for them: nothing is lost, changed or reordered.
func VerifReceiverBusy() {
	n, k, cp := vnd.Param("n"), vnd.Param("k"), vnd.Param("cap")
	txs := vTxs(n)
	sketch, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	peerLoss, ourLoss := make(chan int, cp), make(chan int, cp)
	decoded := make(chan ldpc.DecodedTransaction, cp)
	newTx := make(chan *ldpc.Transaction, 100)
	r := &receiver{
		peerId:             "peer",
		decoder:            ldpc.NewDecoder(vSalt, 1000),
		peerLoss:           peerLoss,
		ourLoss:            ourLoss,
		decodedTransaction: decoded,
		newTransaction:     newTx,
		timeout:            time.Second,
		delaySketch:        sketch,
	}
	ch := make(chan Codeword, 1000)
	vnd.Go(func() { r.decode(ch) })
	vnd.Yield()
	now := uint64(1000)
	vnd.SetNow(now)
	var reports []uint64
	var order []int
	known, sent, ours, lost := 0, 0, 0, 0
	takePeer := func() bool {
		select {
		case l := <-peerLoss:
			vnd.Assert(len(reports) > 0 && uint64(l) == reports[0], "the peer's reports are changed, repeated or reordered")
			reports = reports[1:]
			return true
		default:
			return false
		}
	}
	takeOurs := func() bool {
		select {
		case l := <-ourLoss:
			ours++
			lost += l
			return true
		default:
			return false
		}
	}
	takeTx := func() bool {
		select {
		case d := <-decoded:
			i := vIndex(d.Transaction, txs)
			vnd.Assert(len(order) > 0 && i == order[0], "transactions are passed on twice or out of order")
			order = order[1:]
			return true
		default:
			return false
		}
	}
	for step := 0; step < k; step++ {
		switch vnd.Choose(4) {
		case 0: // a codeword of one transaction, with or without a report
			rep := uint64(0)
			if vnd.Choose(2) == 1 {
				rep = vnd.U64()
				vnd.Assume(rep > 0 && rep < 1<<30)
				reports = append(reports, rep)
			}
			i := sent % n
			sent++
			if known>>uint(i)&1 == 0 {
				known |= 1 << uint(i)
				order = append(order, i)
			}
			ch <- Codeword{ldpc.VMake(vPick(txs, 1<<uint(i)), vSalt), int(rep), 0}
		case 1:
			takePeer()
		case 2:
			takeOurs()
		case 3:
			takeTx()
		}
		vnd.Yield()
	}
	for again := true; again; {
		again = false
		for _, f := range []func() bool{takePeer, takeOurs, takeTx} {
			if f() {
				again = true
			}
			vnd.Yield()
		}
	}
	vnd.Assert(len(reports) == 0, "a report of the peer is dropped")
	vnd.Assert(len(order) == 0, "a decoded transaction is not passed on")
	vnd.Assert(lost == 0, "a codeword is counted as lost before its time")
	if sent > 2 {
		vnd.Reach("several")
	}
	vnd.Reach("end")
}
