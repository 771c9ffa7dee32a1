package des

import (
	"time"

	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifHistory decides D01 late in a simulation: any number of other messages
// was scheduled and delivered before and in between, and the clock stands
// anywhere.
func VerifHistory() {
	w := vNewWorld(2, vnd.Param("msgs"), 0, false)
	t := vnd.U64()
	vnd.Assume(t < 1<<40)
	w.sim.time = time.Duration(t)
	w.last = w.sim.time
	n := vnd.Param("msgs")
	for i := 0; i < n; i++ {
		gap := vnd.U64()
		vnd.Assume(gap < 1<<40)
		w.sim.seq += int(gap)
		w.schedule(i)
	}
	vnd.Assert(w.sim.EventsQueued() == n, "EventsQueued is not the number of undelivered messages")
	w.sim.Run()
	vnd.Assert(w.delivered == len(w.msgs), "message never delivered")
	vnd.Assert(w.sim.Drained(), "Run returned before the simulation was drained")
	vnd.Reach("done")
}
