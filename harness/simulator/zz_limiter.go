package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifLimiter decides S03.
func VerifLimiter() {
	bursts, size, big := vnd.Param("bursts"), vnd.Param("size"), vnd.Param("big")
	srv := vServers(2, [][2]int{{0, 1}}, 1, vConfig(1, 1, 0, 0))
	s := srv[0]
	min := vTs()
	s.forwardRateLimiter.minInterval = time.Duration(min)
	last, any := uint64(0), false
	now := uint64(0)
	id := 0
	for b := 0; b < bursts; b++ {
		now += vTs()
		var list []lt.Transaction[transaction]
		num := vnd.Choose(size + 1)
		if num == size && big > size {
			num = big
		}
		for i := num; i > 0; i-- {
			list = append(list, vMake(id, now))
			id++
		}
		other := des.OutgoingMessage{Payload: ack{true}, Delay: 5}
		pre := vnd.Choose(2)
		var out []des.OutgoingMessage
		for i := 0; i < pre; i++ {
			out = append(out, other)
		}
		out = s.scheduleForwardingTransactions(out, list, time.Duration(now))
		vnd.Assert(len(out) == pre+len(list), "not every transaction is scheduled exactly once")
		if pre > 0 {
			vnd.Assert(out[0].Payload == any2(ack{true}) && out[0].Delay == 5, "another message is changed")
		}
		for i, o := range out[pre:] {
			lp, is := o.Payload.(loopback)
			vnd.Assert(is && o.To == nil, "a transaction is not scheduled at the server itself")
			vnd.Assert(lp.tx.Data() == list[i].Data(), "another transaction, or not in order")
			vnd.Assert(o.Delay >= 0, "a transaction is scheduled in the past")
			slot := now + uint64(o.Delay)
			// simulations start at time 0, which counts as a slot
			vnd.Assert(slot >= last+min, "transactions are scheduled closer than the minimum interval")
			vnd.Assert(slot == now || slot == last+min, "a transaction is scheduled later than it could be")
			if any && i == 0 {
				vnd.Reach("again")
				if now >= last+min {
					vnd.Reach("idle")
				} else {
					vnd.Reach("busy")
				}
			}
			last, any = slot, true
		}
	}
	vnd.Reach("end")
}

func any2(x any) any { return x }
