package des

import (
	"time"

	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vSpot is a module of its own for every message, so that messages without a
// payload can be told apart.
type vSpot struct {
	b   *vBurst
	id  int
	due time.Duration
	run bool // has been delivered to
	nul bool
	any bool // payload is the module's number
}

type vBurst struct {
	sim   *Simulator
	spots []*vSpot
	order []int
	waves int
	size  int
	at    int
	nul   int
	root  Module
}

// batch builds the messages of one handler, all to different modules.
func (b *vBurst) batch() []OutgoingMessage {
	var out []OutgoingMessage
	for i := 0; i < b.size; i++ {
		id := len(b.spots)
		d := time.Duration(id*7%3) * time.Second
		if id == b.at {
			d = vDelay()
		}
		s := &vSpot{b: b, id: id, due: b.sim.Time() + d, nul: id%3 == b.nul}
		b.spots = append(b.spots, s)
		m := OutgoingMessage{To: s, Delay: d}
		if !s.nul {
			m.Payload = id
		}
		out = append(out, m)
	}
	return out
}

type vRoot struct{ b *vBurst }

func (r *vRoot) HandleMessage(p any, from Module, ts time.Duration) []OutgoingMessage {
	vnd.Assert(p == nil && from == Module(r), "a module's message to itself is altered")
	r.b.waves--
	out := r.b.batch()
	if r.b.waves > 0 {
		out = append(out, OutgoingMessage{Delay: time.Second})
	}
	return out
}

func (s *vSpot) HandleMessage(p any, from Module, ts time.Duration) []OutgoingMessage {
	b := s.b
	vnd.Assert(!s.run, "message delivered twice")
	s.run = true
	if s.nul {
		vnd.Assert(p == nil, "payload altered")
	} else {
		id, is := p.(int)
		vnd.Assert(is && id == s.id, "payload altered")
	}
	vnd.Assert(from == b.root, "wrong sender reported")
	vnd.Assert(ts == s.due && b.sim.Time() == s.due, "message delivered at the wrong time")
	for i, o := range b.spots {
		if o.run {
			continue
		}
		if i < s.id {
			vnd.Assert(o.due > s.due, "a message was overtaken by one scheduled later and not due earlier")
		} else {
			vnd.Assert(o.due >= s.due, "a message was overtaken by one due later")
		}
	}
	return nil
}

// VerifBurst decides D01 for handlers that return many messages at once, some
// of them without payload, one of them with any delay.
func VerifBurst() {
	b := &vBurst{sim: &Simulator{}, waves: vnd.Param("waves"), size: vnd.Param("size")}
	b.at = vnd.Choose(b.waves * b.size)
	b.nul = vnd.Choose(4)
	b.root = &vRoot{b}
	b.sim.ScheduleMessage(OutgoingMessage{Delay: time.Duration(vnd.Choose(2)) * time.Second}, b.root)
	b.sim.Run()
	for _, s := range b.spots {
		vnd.Assert(s.run, "message never delivered")
	}
	vnd.Assert(len(b.spots) == vnd.Param("waves")*b.size, "message never delivered")
	vnd.Assert(b.sim.EventsDelivered() == vnd.Param("waves")*(b.size+1), "EventsDelivered is not the number of delivered messages")
	vnd.Reach("done")
}
