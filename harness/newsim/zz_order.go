package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifOrder decides S05: two simulations with the same seed and inputs send
// the same messages, whatever order hash tables are visited in.
func VerifOrder() {
	np, k := vnd.Param("peers"), vnd.Param("k")
	flood, cod := vnd.Bool(), vnd.Bool()
	type op struct{ kind, a, b int }
	var ops []op
	for i := 0; i < k; i++ {
		o := op{kind: vnd.Choose(4)}
		switch o.kind {
		case 0:
			o.a = 1 + vnd.Choose(2)
		default:
			o.a, o.b = vnd.Choose(np), vnd.Choose(2)
		}
		ops = append(ops, o)
	}
	type sent struct {
		step, to int
		delay    time.Duration
		kind     int
		flags    [2]bool
		code     riblt.CodedSymbol[transaction]
		a, b     uint64
		txs      []vTx
	}
	runs := uint64(0)
	run := func() (log []sent) {
		runs++
		vnd.SetNow(runs * 1e9) // the time of day is no input
		TXSIZE = 100
		txgen = &transactionGenerator{}
		vSeed(3)
		srv := newServers(&des.Simulator{}, np+1, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1, initialFlood: flood})
		s := srv[0]
		for p := 0; p < np; p++ {
			d := time.Duration(p+1) * time.Millisecond
			x, y := s, srv[p+1]
			if p%2 != 0 {
				x, y = y, x
			}
			if cod {
				connectCodingServers(x, y, d, senderConfig{controlOverhead: 0.5, numShards: 3})
			} else {
				connectPullServers(x, y, d)
			}
		}
		for step, o := range ops {
			now := time.Duration(step+1) * time.Minute
			var from des.Module = srv[1+o.a]
			var payload any
			t := vMake(100+o.b, 5)
			switch {
			case o.kind == 0:
				payload, from = blockArrival{o.a}, s
			case o.kind == 1:
				payload = initialBroadcast{t}
			case cod && (o.kind == 2) == (o.a%2 != 0):
				// a first codeword for a receiving end
				var e riblt.Encoder[transaction]
				e.AddHashedSymbol(t)
				cw := codeword{newBlock: true}
				cw.CodedSymbol = e.ProduceNextCodedSymbol()
				if o.a%2 == 0 {
					vnd.Stop()
				}
				payload = cw
			case cod:
				if o.a%2 != 0 {
					vnd.Stop()
				}
				payload = ack{ackBlock: true, ackStart: true, txs: []vTx{t}}
			case o.kind == 2:
				payload = announce{t.Hash}
			default:
				payload = response{t}
			}
			vnd.MapOrder(true)
			out := s.HandleMessage(payload, from, now)
			vnd.MapOrder(false)
			for _, m := range out {
				x := sent{step: step, to: -1, delay: m.Delay}
				for i := range srv {
					if m.To == des.Module(srv[i]) {
						x.to = i
					}
				}
				switch y := m.Payload.(type) {
				case codeword:
					x.kind, x.flags[0], x.code, x.a, x.b = 1, y.newBlock, y.CodedSymbol, y.startHash, y.endHash
				case ack:
					x.kind, x.flags, x.txs = 2, [2]bool{y.ackBlock, y.ackStart}, y.txs
				case announce:
					x.kind, x.a = 3, y.hash
				case request:
					x.kind, x.a = 4, y.hash
				case response:
					x.kind, x.txs = 5, []vTx{y.payload}
				case initialBroadcast:
					x.kind, x.txs = 6, []vTx{y.payload}
				case blockArrival:
					x.kind = 7
				}
				log = append(log, x)
			}
		}
		return
	}
	a, b := run(), run()
	vnd.Assert(len(a) == len(b), "another number of messages")
	several := false
	for i := range a {
		x, y := a[i], b[i]
		vnd.Assert(x.step == y.step && x.to == y.to && x.kind == y.kind, "messages in another order")
		vnd.Assert(x.delay == y.delay, "another delay")
		vnd.Assert(x.flags == y.flags && x.code == y.code && x.a == y.a && x.b == y.b && len(x.txs) == len(y.txs), "another content")
		for j := range x.txs {
			vnd.Assert(x.txs[j] == y.txs[j], "another content")
		}
		if i > 0 && x.kind != 7 && a[i-1].step == x.step && a[i-1].to != x.to {
			several = true
		}
	}
	if several {
		vnd.Reach("several")
	}
	vnd.Reach("end")
}
