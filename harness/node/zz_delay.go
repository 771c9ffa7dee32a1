package main

import (
	"encoding/binary"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vDelayClock struct{ now uint64 }

// step lets any time of at least 5 ms pass.
func (c *vDelayClock) step() {
	d := vnd.U64()
	vnd.Assume(d >= 5*vMs && d < 1<<40)
	c.now += d
	vnd.SetNow(c.now)
}

func (c *vDelayClock) micro() int64 { return time.Now().UnixMicro() }

// vDelays follows a record of delays.
type vDelays struct {
	n   int
	sum float64
}

// add expects a sample of the time from a microsecond to another, in ms.
func (w *vDelays) add(from, to int64) {
	vnd.Assume(to-from > 1000 && to-from < 1<<50)
	w.n++
	w.sum += float64(to-from) / 1000.0
}

func (w *vDelays) check(d *ddsketch.DDSketchWithExactSummaryStatistics) {
	vnd.Assert(d.GetCount() == float64(w.n), "not exactly one sample each")
	got := d.GetSum()
	if vnd.Replaying() {
		e := got - w.sum
		vnd.Assert(e <= 1e-9*w.sum && -e <= 1e-9*w.sum, "a sample is not the delay in milliseconds")
	} else {
		vnd.Assert(vnd.Or(got == w.sum, got != got), "a sample is not the delay in milliseconds")
	}
}

func vSketch() *ddsketch.DDSketchWithExactSummaryStatistics {
	s, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	return s
}

// VerifLatency decides M02 for the controller: transactions generated at any
// times are decoded at any later times.
func VerifLatency() {
	k := vnd.Param("k")
	warmup := vnd.U64()
	vnd.Assume(warmup < 1<<42)
	c := &controller{
		newPeer:            make(chan *peer),
		decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		localTransaction:   make(chan *ldpc.Transaction, 1000),
		delaySketch:        vSketch(),
		warmupTime:         time.Duration(warmup),
	}
	clock := &vDelayClock{vSec}
	vnd.SetNow(clock.now)
	start := clock.now
	vnd.Go(func() { c.loop() })
	vnd.Yield()
	var want vDelays
	warm := false
	type made struct {
		tx *ldpc.Transaction
		at int64
	}
	var txs []made
	joins := 1
	for step := 0; step < k; step++ {
		switch vnd.Choose(5) {
		case 4: // a peer joins
			if joins == 0 {
				vnd.Stop()
			}
			joins--
			c.newPeer <- &peer{make(chan *ldpc.Transaction, 100), make(chan *ldpc.Transaction, 100)}
		case 0:
			t := randomTransaction()
			at := clock.micro()
			d := t.Serialized()
			vnd.Assert(len(d) == ldpc.TxSize && int64(binary.LittleEndian.Uint64(d[:8])) == at, "a transaction does not carry the time of its generation")
			txs = append(txs, made{t, at})
			if vnd.Bool() {
				c.localTransaction <- t
			}
			clock.step()
		case 1:
			if len(txs) == 0 {
				vnd.Stop()
			}
			m := txs[vnd.Choose(len(txs))]
			c.decodedTransaction <- ldpc.DecodedTransaction{m.tx, vnd.Bool()}
			if warm {
				want.add(m.at, clock.micro())
				vnd.Reach("sample")
			} else {
				vnd.Reach("warming up")
			}
		case 2:
			clock.step()
		case 3:
			vnd.Tick(vSec)
			if clock.now-start > warmup {
				warm = true
			}
		}
		vnd.Yield()
		want.check(c.delaySketch)
	}
	vnd.Reach("end")
}

// VerifTransit decides M02 for the receiver and the sender: codewords carry
// the time they were sent and are measured when they arrive, and the record
// starts afresh every second.
func VerifTransit() {
	k := vnd.Param("k")
	clock := &vDelayClock{vSec}
	vnd.SetNow(clock.now)
	newTx := make(chan *ldpc.Transaction, 100)
	s := &sender{
		peerId:         "peer",
		encoder:        ldpc.NewEncoder(vSalt, vDegree(1), 1),
		cwRate:         100,
		minRate:        100,
		peerLoss:       make(chan int),
		ourLoss:        make(chan int),
		newTransaction: newTx,
	}
	r := &receiver{
		peerId:             "peer",
		decoder:            ldpc.NewDecoder(vSalt, 1000),
		peerLoss:           make(chan int, 100),
		ourLoss:            make(chan int, 100),
		decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		newTransaction:     make(chan *ldpc.Transaction, 100),
		timeout:            time.Duration(1 << 40),
		delaySketch:        vSketch(),
	}
	out := make(chan Codeword, 1000)
	in := make(chan Codeword, 1000)
	vnd.Go(func() { s.loop(out) })
	vnd.Go(func() { r.decode(in) })
	newTx <- vTx(0, 0)
	vnd.Yield()
	var want vDelays
	var way []int64
	for step := 0; step < k; step++ {
		switch vnd.Choose(4) {
		case 0: // the sender sends one
			vnd.Tick(10 * vMs)
			way = append(way, clock.micro())
			vnd.Yield()
			vnd.Assert(len(out) == len(way), "not one codeword sent at the given rate")
		case 1: // one arrives
			if len(way) == 0 {
				vnd.Stop()
			}
			cw := <-out
			vnd.Assert(cw.UnixMicro == way[0], "a codeword does not carry the time it was sent")
			in <- cw
			want.add(way[0], clock.micro())
			way = way[1:]
			vnd.Yield()
			vnd.Reach("sample")
			if want.n > 1 {
				vnd.Reach("several")
			}
		case 2:
			clock.step()
		case 3: // a second ends
			vnd.Tick(vSec)
			vnd.Yield()
			want = vDelays{}
		}
		want.check(r.delaySketch)
	}
	vnd.Reach("end")
}
