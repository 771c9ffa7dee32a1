package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifOrder decides S05: two simulations with the same seed and inputs send
// the same messages, whatever order hash tables are visited in.
func VerifOrder() {
	np, k := vnd.Param("peers"), vnd.Param("k")
	period := time.Duration(vnd.Choose(2)) * time.Second
	type op struct{ kind, a, b int }
	var ops []op
	for i := 0; i < k; i++ {
		o := op{kind: vnd.Choose(5)}
		switch o.kind {
		case 0:
			o.a = 1 + vnd.Choose(2)
		case 2:
			if period == 0 {
				vnd.Stop()
			}
		case 3:
			o.a, o.b = vnd.Choose(np), 1+vnd.Choose(3)
		case 4:
			o.a, o.b = vnd.Choose(np), vnd.Choose(2)
		}
		ops = append(ops, o)
	}
	ext := vMakes(2)
	var edges [][2]int
	for p := 0; p < np; p++ {
		if p%2 == 0 {
			edges = append(edges, [2]int{0, p + 1})
		} else {
			edges = append(edges, [2]int{p + 1, 0})
		}
	}
	type sent struct {
		step, to int
		delay    time.Duration
		kind     int
		flag     bool
		sym      transaction
		names    []uint32
	}
	runs := uint64(0)
	run := func() (log []sent) {
		runs++
		vnd.SetNow(runs * 1e9) // the time of day is no input
		txgen = newTransactionGenerator()
		srv := vServers(np+1, edges, 7, vConfig(1, 1, 0, period))
		s := srv[0]
		s.forwardRateLimiter.minInterval = time.Millisecond
		inflight := make([]int, np)
		var loop []des.OutgoingMessage
		for step, o := range ops {
			now := time.Duration(step+1) * time.Minute
			var from des.Module = s
			var payload any
			switch o.kind {
			case 0:
				payload = blockArrival{o.a}
			case 1:
				if len(loop) == 0 {
					vnd.Stop()
				}
				payload = loop[0].Payload
				loop = loop[1:]
			case 2:
				payload = createNewBlock{}
			case 3:
				from = srv[1+o.a]
				payload = codeword{vCodeword(ext, o.b), true}
			case 4:
				if inflight[o.a] == 0 {
					vnd.Stop()
				}
				inflight[o.a]--
				from = srv[1+o.a]
				payload = ack{o.b != 0}
			}
			vnd.MapOrder(true)
			out := s.HandleMessage(payload, from, now)
			vnd.MapOrder(false)
			for _, m := range out {
				x := sent{step: step, to: -1, delay: m.Delay}
				for i := range srv {
					if m.To == des.Module(srv[i]) {
						x.to = i
					}
				}
				switch y := m.Payload.(type) {
				case codeword:
					x.kind, x.flag = 1, y.newBlock
					x.sym, x.names = lt.VParts(y.Codeword)
					inflight[x.to-1]++
				case ack:
					x.kind, x.flag = 2, y.ackBlock
				case loopback:
					x.kind, x.sym = 3, y.tx.Data()
					loop = append(loop, m)
				case blockArrival:
					x.kind = 4
				case createNewBlock:
					x.kind = 5
				}
				log = append(log, x)
			}
		}
		return
	}
	a, b := run(), run()
	vnd.Assert(len(a) == len(b), "another number of messages")
	several := false
	for i := range a {
		x, y := a[i], b[i]
		vnd.Assert(x.step == y.step && x.to == y.to && x.kind == y.kind, "messages in another order")
		vnd.Assert(x.delay == y.delay, "another delay")
		vnd.Assert(x.flag == y.flag && x.sym == y.sym && len(x.names) == len(y.names), "another content")
		for j := range x.names {
			vnd.Assert(x.names[j] == y.names[j], "another content")
		}
		if i > 0 && x.kind == 1 && a[i-1].kind == 1 && a[i-1].step == x.step && a[i-1].to != x.to {
			several = true
		}
	}
	if several {
		vnd.Reach("several")
	}
	vnd.Reach("end")
}
