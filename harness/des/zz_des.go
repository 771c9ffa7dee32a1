package des

import (
	"time"

	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vWorld is the reference: the list of every message ever scheduled.
type vWorld struct {
	sim       *Simulator
	mods      []*vMod
	msgs      []*vMsg
	delivered int
	budget    int // messages that may still be scheduled
	fan       int // most messages a handler may schedule
	free      bool
	past      int // deliveries of this run that were due after the limit
	limit     time.Duration
	limited   bool
	last      time.Duration
}

type vMsg struct {
	due  time.Duration
	from Module
	to   Module
	done bool
}

type vMod struct {
	w  *vWorld
	id int
}

type vPayload struct {
	id  int
	tag uint64
}

func vNewWorld(nmod, budget, fan int, free bool) *vWorld {
	w := &vWorld{sim: &Simulator{}, budget: budget, fan: fan, free: free}
	for i := 0; i < nmod; i++ {
		w.mods = append(w.mods, &vMod{w, i})
	}
	return w
}

func vDelay() time.Duration {
	d := vnd.U64()
	vnd.Assume(d < 1<<40)
	return time.Duration(d)
}

// next builds one more message from the given module and records it.
func (w *vWorld) next(from *vMod) OutgoingMessage {
	w.budget--
	id := len(w.msgs)
	var to *vMod
	var k int
	if w.free {
		k = vnd.Choose(len(w.mods) + 1)
	} else {
		k = id % (len(w.mods) + 1)
	}
	o := OutgoingMessage{Payload: vPayload{id, uint64(id) * 77}, Delay: vDelay()}
	if k > 0 {
		to = w.mods[k-1]
		o.To = to
	} else {
		to = from
	}
	w.msgs = append(w.msgs, &vMsg{due: w.sim.Time() + o.Delay, from: from, to: to})
	return o
}

func (w *vWorld) schedule(i int) {
	m := w.mods[i%len(w.mods)]
	w.sim.ScheduleMessage(w.next(m), m)
}

func (w *vWorld) counts() {
	vnd.Assert(w.sim.EventsQueued() == len(w.msgs)-w.delivered, "EventsQueued is not the number of undelivered messages")
	vnd.Assert(w.sim.EventsDelivered() == w.delivered, "EventsDelivered is not the number of delivered messages")
	vnd.Assert(w.sim.Drained() == (len(w.msgs) == w.delivered), "Drained is not equivalent to nothing queued")
}

func (m *vMod) HandleMessage(payload any, from Module, ts time.Duration) []OutgoingMessage {
	w := m.w
	p, ok := payload.(vPayload)
	vnd.Assert(ok, "payload replaced")
	vnd.Assert(p.id >= 0 && p.id < len(w.msgs) && p.tag == uint64(p.id)*77, "payload altered")
	g := w.msgs[p.id]
	vnd.Assert(!g.done, "message delivered twice")
	g.done = true
	w.delivered++
	vnd.Assert(g.to == Module(m), "message delivered to the wrong module")
	vnd.Assert(g.from == from, "wrong sender reported")
	vnd.Assert(ts == g.due, "message delivered at the wrong time")
	vnd.Assert(w.sim.Time() == ts, "clock differs from the due time of the message being delivered")
	vnd.Assert(ts >= w.last, "clock moved backwards")
	w.last = ts
	for i, o := range w.msgs {
		if o.done {
			continue
		}
		if i < p.id {
			vnd.Assert(o.due > g.due, "a message was overtaken by one scheduled later and not due earlier")
		} else {
			vnd.Assert(o.due >= g.due, "a message was overtaken by one due later")
		}
	}
	if w.limited && g.due > w.limit {
		w.past++
		vnd.Assert(w.past == 1, "more than the first message due after the limit delivered")
	}
	n := w.fan
	if n > w.budget {
		n = w.budget
	}
	if n == 0 {
		return nil
	}
	n = vnd.Choose(n + 1)
	var out []OutgoingMessage
	for i := 0; i < n; i++ {
		out = append(out, w.next(m))
	}
	return out
}

// VerifDelivery decides D01: any tree of messages with any delays.
func VerifDelivery() {
	w := vNewWorld(vnd.Param("mods"), vnd.Param("msgs"), vnd.Param("fan"), vnd.Param("free") == 1)
	n := 1 + vnd.Choose(vnd.Param("initial"))
	for i := 0; i < n; i++ {
		w.schedule(i)
	}
	w.counts()
	w.sim.Run()
	w.counts()
	vnd.Assert(w.delivered == len(w.msgs), "message never delivered")
	vnd.Reach("done")
}

// VerifLate decides D01 for messages scheduled from outside after a run.
func VerifLate() {
	w := vNewWorld(2, vnd.Param("msgs"), vnd.Param("fan"), false)
	rounds := vnd.Param("rounds")
	for r := 0; r < rounds && w.budget > 0; r++ {
		n := 1 + vnd.Choose(2)
		for i := 0; i < n && w.budget > 0; i++ {
			w.schedule(i + r)
		}
		w.sim.Run()
		w.counts()
		vnd.Assert(w.delivered == len(w.msgs), "message never delivered")
	}
	vnd.Reach("done")
}

// VerifRunUntil decides D02: any sequence of run-until times.
func VerifRunUntil() {
	w := vNewWorld(2, vnd.Param("msgs"), vnd.Param("fan"), false)
	rounds := vnd.Param("rounds")
	n := 1 + vnd.Choose(vnd.Param("initial"))
	for i := 0; i < n; i++ {
		w.schedule(i)
	}
	for r := 0; r < rounds; r++ {
		t := time.Duration(vnd.U64())
		vnd.Assume(t >= 0 && t < 1<<42)
		start := w.sim.Time()
		w.limited, w.limit, w.past = true, t, 0
		before := w.delivered
		w.sim.RunUntil(t)
		w.counts()
		if start > t {
			vnd.Assert(w.delivered == before, "a message delivered although the clock had passed the limit")
		}
		vnd.Assert(w.sim.Time() >= start, "clock moved backwards")
		for _, m := range w.msgs {
			if !m.done {
				vnd.Assert(m.due > t, "a message due by the limit was left undelivered")
			}
		}
		if w.budget > 0 && vnd.Choose(2) == 1 {
			w.schedule(r)
			w.counts()
		}
	}
	w.limited = false
	w.sim.Run()
	w.counts()
	vnd.Assert(w.delivered == len(w.msgs), "message never delivered")
	vnd.Assert(w.sim.Drained(), "Run returned before the simulation was drained")
	vnd.Reach("done")
}

// VerifWide decides D01 and D02 on a deep queue: many messages with fixed
// delays and a few with any delay.
func VerifWide() {
	w := vNewWorld(2, vnd.Param("msgs"), 0, false)
	n := vnd.Param("msgs")
	free := vnd.Param("symbolic")
	every := vnd.Param("every")
	if every == 0 {
		every = 1
	}
	at := every * vnd.Choose((n-free)/every+1)
	for i := 0; i < n; i++ {
		w.budget--
		id := len(w.msgs)
		var d time.Duration
		if i >= at && i < at+free {
			d = vDelay()
			vnd.Assume(d < 1<<12)
		} else {
			d = time.Duration((i*37+11)%17) * 5
		}
		from := w.mods[i%2]
		w.msgs = append(w.msgs, &vMsg{due: d, from: from, to: w.mods[0]})
		w.sim.ScheduleMessage(OutgoingMessage{Payload: vPayload{id, uint64(id) * 77}, To: w.mods[0], Delay: d}, from)
	}
	w.counts()
	t := time.Duration(42)
	w.limited, w.limit = true, t
	w.sim.RunUntil(t)
	for _, m := range w.msgs {
		if !m.done {
			vnd.Assert(m.due > t, "a message due by the limit was left undelivered")
		}
	}
	w.counts()
	w.limited = false
	w.sim.Run()
	w.counts()
	vnd.Assert(w.delivered == len(w.msgs), "message never delivered")
	vnd.Reach("done")
}
