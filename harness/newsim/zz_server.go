package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vAlg stands for any link: it records what it is given and sends what the
// harness puts into it.
type vAlg struct {
	given []vTx
	queue []any
}

func (v *vAlg) collectOutgoingMessages(p des.Module, d time.Duration, out []des.OutgoingMessage) []des.OutgoingMessage {
	for _, m := range v.queue {
		out = append(out, des.OutgoingMessage{Payload: m, To: p, Delay: d})
	}
	v.queue = nil
	return out
}
func (v *vAlg) forwardTransaction(tx vTx) { v.given = append(v.given, tx) }
func (v *vAlg) handleMessage(m any) []vTx { return m.(vMsg).list }

// vMsg is a message of such a link that completes the given transactions.
type vMsg struct {
	list []vTx
	n    int
}

func (m vMsg) size() int { return m.n }

// vQueued is a message a link wants to send.
type vQueued struct{ link, no int }

func (vQueued) size() int { return 1 }

type vPeer struct{ id int }

func (*vPeer) HandleMessage(any, des.Module, time.Duration) []des.OutgoingMessage { return nil }

// VerifServer decides N04 for one server with any links and neighbours.
func VerifServer() {
	np, n, k := vnd.Param("peers"), vnd.Param("n"), vnd.Param("k")
	flood := vnd.Bool()
	burst := 1 + vnd.Choose(2)
	TXSIZE = 100
	txgen = &transactionGenerator{}
	sim := &des.Simulator{}
	srv := newServers(sim, 2, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: burst, initialFlood: flood})
	vnd.Assert(len(srv) == 2 && sim.EventsQueued() == 2, "not every server has its arrivals scheduled")
	s := srv[1]
	var peers []*vPeer
	var algs []*vAlg
	for i := 0; i < np; i++ {
		p, a := &vPeer{i}, &vAlg{}
		peers, algs = append(peers, p), append(algs, a)
		s.handlers[p] = peer{a, time.Duration(i+1) * time.Second}
		s.peers = append(s.peers, p)
	}
	var txs []vTx
	for i := 0; i < n; i++ {
		txs = append(txs, vMake(1000+i, vTs()))
	}
	known := 0
	var recv, dup, dec, bytes, local int
	for step := 0; step < k; step++ {
		var payload any
		var from des.Module
		src := -1
		expect := make([][]vTx, np) // what each link is to be given
		var casts, arrivals int
		accept := func(i int) {
			if known>>uint(i)&1 != 0 {
				dup++
				return
			}
			known |= 1 << uint(i)
			recv++
			dec++
			for p := range peers {
				if p != src {
					expect[p] = append(expect[p], txs[i])
				}
			}
		}
		now := time.Duration(step+1) * time.Hour
		c := vnd.Choose(1 + 2*np)
		switch {
		case c == 0:
			m := vnd.Choose(3)
			payload = blockArrival{m}
			arrivals = 1
			if flood {
				casts = m
			} else {
				for j := 0; j < m; j++ {
					for p := range peers {
						expect[p] = append(expect[p], vMake(local+j, uint64(now)))
					}
				}
			}
			recv += m
		case c <= np:
			src = c - 1
			i := vnd.Choose(len(txs))
			payload = initialBroadcast{txs[i]}
			bytes += 100
			accept(i)
		default:
			src = c - 1 - np
			var l []vTx
			for j := vnd.Choose(3); j > 0; j-- {
				i := vnd.Choose(len(txs))
				l = append(l, txs[i])
				accept(i)
			}
			sz := vnd.Choose(2) * 777
			payload = vMsg{l, sz}
			bytes += sz
		}
		if src >= 0 {
			from = peers[src]
		} else {
			from = s
		}
		want := make([][]any, np)
		for p := range algs {
			for j := (p + step) % 3; j > 0; j-- {
				m := vQueued{p, step*10 + j}
				want[p] = append(want[p], m)
				algs[p].queue = append(algs[p].queue, m)
			}
			algs[p].given = nil
		}
		out := s.HandleMessage(payload, from, now)
		for p := range algs {
			vnd.Assert(len(algs[p].given) == len(expect[p]), "a link is not given each new transaction exactly once")
			for j, t := range algs[p].given {
				e := expect[p][j]
				vnd.Assert(t.Symbol == e.Symbol, "a link is given something else than the new transactions")
				vnd.Assert(t.Hash == e.Hash, "a transaction is given with a wrong hash")
			}
		}
		sent := make([]int, np)
		cast := make([]int, np)
		for _, o := range out {
			if ba, is := o.Payload.(blockArrival); is {
				arrivals--
				vnd.Assert(ba.n == burst && (o.To == nil || o.To == des.Module(s)), "wrong next arrival")
				vnd.Assert(o.Delay >= 0, "next arrival in the past")
				continue
			}
			p := -1
			for i, x := range peers {
				if o.To == des.Module(x) {
					p = i
				}
			}
			vnd.Assert(p >= 0, "a message to nobody")
			vnd.Assert(o.Delay == time.Duration(p+1)*time.Second, "a message with another neighbour's delay")
			switch m := o.Payload.(type) {
			case vQueued:
				vnd.Assert(sent[p] < len(want[p]) && want[p][sent[p]] == any(m), "a link's message is sent to another neighbour, twice or out of order")
				sent[p]++
			case initialBroadcast:
				e := vMake(local+cast[p], uint64(now))
				vnd.Assert(m.payload.Symbol == e.Symbol && m.payload.Hash == e.Hash, "wrong broadcast")
				cast[p]++
			default:
				vnd.Fail("an unknown message")
			}
		}
		for p := range peers {
			vnd.Assert(sent[p] == len(want[p]), "a link's message is not sent")
			vnd.Assert(cast[p] == casts, "a new transaction is not broadcast to every neighbour once")
		}
		vnd.Assert(arrivals == 0, "the next arrival is not scheduled exactly once")
		if ba, is := payload.(blockArrival); is {
			// what a server generated itself may come back
			for j := 0; j < ba.n; j++ {
				known |= 1 << uint(len(txs))
				txs = append(txs, vMake(local+j, uint64(now)))
			}
			local += ba.n
			vnd.Reach("local")
		}
		vnd.Assert(s.receivedTransactions == recv, "received transactions are not counted exactly once")
		vnd.Assert(s.decodedTransactions == dec, "decoded transactions are not counted exactly once")
		vnd.Assert(s.duplicateTransactions == dup, "duplicates are not counted")
		vnd.Assert(s.receivedBytes == bytes, "bytes are not accounted")
	}
	if dup > 0 {
		vnd.Reach("duplicate")
	}
	if dec > 0 {
		vnd.Reach("decoded")
	}
	vnd.Reach("end")
}

// vNet is a network of real servers with an ordered queue per direction.
type vNet struct {
	srv    []*server
	edges  [][2]int
	q      [][]des.OutgoingMessage // by edge and direction
	used   map[[2]int]bool         // a link message was sent
	nloc   int
	now    time.Duration
	sym    bool // any times
	local  []int
	coding bool
	start  bool // a link's sending end starts with the first transaction generated there
}

func vNewNet(n int, edges [][2]int, flood, coding bool, shards int) *vNet {
	TXSIZE = 100
	txgen = &transactionGenerator{}
	RNG = nil
	w := &vNet{edges: edges, used: map[[2]int]bool{}, q: make([][]des.OutgoingMessage, 2*len(edges)), local: make([]int, n)}
	w.srv = newServers(&des.Simulator{}, n, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1, initialFlood: flood})
	vSeed(1)
	for i, e := range edges {
		d := time.Duration(i+1) * time.Millisecond
		if coding {
			connectCodingServers(w.srv[e[0]], w.srv[e[1]], d, senderConfig{controlOverhead: 0.3, numShards: shards})
		} else {
			connectPullServers(w.srv[e[0]], w.srv[e[1]], d)
		}
	}
	return w
}

func (w *vNet) id(m des.Module) int {
	for i, s := range w.srv {
		if m == des.Module(s) {
			return i
		}
	}
	vnd.Fail("a message to nobody")
	return 0
}

func (w *vNet) put(at int, out []des.OutgoingMessage, wantArrival bool) {
	for _, o := range out {
		if _, is := o.Payload.(blockArrival); is {
			vnd.Assert(wantArrival, "an arrival is scheduled twice")
			wantArrival = false
			continue
		}
		to := w.id(o.To)
		ok := false
		for i, e := range w.edges {
			d := -1
			if e == [2]int{at, to} {
				d = 0
			}
			if e == [2]int{to, at} {
				d = 1
			}
			if d >= 0 {
				vnd.Assert(o.Delay == time.Duration(i+1)*time.Millisecond, "a message with another link's delay")
				w.q[2*i+d] = append(w.q[2*i+d], o)
				if _, is := o.Payload.(initialBroadcast); !is {
					w.used[[2]int{at, to}] = true
				}
				ok = true
			}
		}
		vnd.Assert(ok, "a message to a server that is no neighbour")
	}
	vnd.Assert(!wantArrival, "the next arrival is not scheduled")
	s := w.srv[at]
	vnd.Assert(s.receivedTransactions == len(s.received), "received transactions are not counted exactly once")
	vnd.Assert(s.decodedTransactions == len(s.received)-w.local[at], "decoded transactions are not counted exactly once")
}

func (w *vNet) tick() time.Duration {
	if w.sym {
		t := time.Duration(vTs())
		vnd.Assume(t >= w.now)
		w.now = t
	} else {
		w.now += time.Second
	}
	return w.now
}

func (w *vNet) arrive(at int) {
	w.nloc++
	w.local[at]++
	w.put(at, w.srv[at].HandleMessage(blockArrival{1}, w.srv[at], w.tick()), true)
	for _, e := range w.edges {
		vnd.Assert(!w.start || e[0] != at || w.used[e], "a link sends nothing although there is a transaction to forward")
		vnd.Assert(!w.start || w.coding || e[1] != at || w.used[[2]int{at, e[0]}], "a link sends nothing although there is a transaction to forward")
	}
}

// deliver delivers the oldest message of one direction of a link.
func (w *vNet) deliver(d int) {
	m := w.q[d][0]
	w.q[d] = w.q[d][1:]
	to, from := w.edges[d/2][1-d%2], w.edges[d/2][d%2]
	vnd.Assert(m.To == des.Module(w.srv[to]), "a message is queued for another server")
	w.put(to, w.srv[to].HandleMessage(m.Payload, w.srv[from], w.tick()), false)
}

var vTopologies = [][][2]int{
	{{0, 1}},
	{{0, 1}, {1, 2}},
	{{0, 1}, {1, 2}, {2, 0}},
	{{1, 0}, {2, 0}, {3, 0}},
}

// VerifNetwork decides N04 and N05 end to end: servers on real links with any
// interleaving of arrivals and deliveries. When nothing is under way, every
// server knows every transaction (pull), as it does after a long time (coding).
func VerifNetwork() {
	topo := vTopologies[vnd.Param("topology")]
	n := 0
	for _, e := range topo {
		for _, x := range e {
			if x >= n {
				n = x + 1
			}
		}
	}
	cod := vnd.Param("coding") != 0
	flood := vnd.Param("flood") != 0 && vnd.Bool()
	w := vNewNet(n, topo, flood, cod, 1)
	w.start, w.coding = !flood, cod
	w.sym = vnd.Param("sym") != 0
	txs := vnd.Param("n")
	for s := 0; s < vnd.Param("k"); s++ {
		c := vnd.Choose(n + len(w.q))
		if c < n {
			if w.nloc == txs {
				vnd.Stop()
			}
			w.arrive(c)
			continue
		}
		if len(w.q[c-n]) == 0 {
			vnd.Stop()
		}
		w.deliver(c - n)
	}
	// then everything is delivered
	for r := 0; r < vnd.Param("drain"); r++ {
		for d := range w.q {
			if len(w.q[d]) > 0 {
				w.deliver(d)
			}
		}
	}
	busy := false
	for d := range w.q {
		busy = busy || len(w.q[d]) > 0
	}
	if !cod {
		vnd.Assert(!busy, "messages without end")
	}
	// a coding link works once its sending end has had a transaction to forward
	works := true
	if cod {
		for _, e := range topo {
			works = works && w.used[e]
		}
	}
	for _, s := range w.srv {
		for i := 1; i <= w.nloc; i++ {
			_, there := s.received[uint64(i)]
			vnd.Assert(there || !works, "a transaction does not reach every server")
		}
		vnd.Assert(len(s.received) <= w.nloc, "a server knows something that was never generated")
	}
	if w.nloc == txs && works {
		vnd.Reach("all")
	}
	vnd.Reach("end")
}

// vQuiet is a link that takes any message.
type vQuiet struct{ vAlg }

func (v *vQuiet) handleMessage(m any) []vTx { return nil }

// VerifSizes decides that the size of every kind of message is accounted.
func VerifSizes() {
	k := vnd.Param("k")
	TXSIZE = []int{1, 8, 100, 4096, 1 << 24}[vnd.Choose(5)]
	txgen = &transactionGenerator{}
	sim := &des.Simulator{}
	s := newServers(sim, 1, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1, initialFlood: vnd.Bool()})[0]
	p := &vPeer{1}
	s.handlers[p] = peer{&vQuiet{}, time.Second}
	s.peers = append(s.peers, p)
	tx := vMake(1, vTs())
	want := 0
	for i := 0; i < k; i++ {
		var m any
		switch vnd.Choose(7) {
		case 0:
			m = codeword{newBlock: vnd.Bool(), startHash: vnd.U64(), endHash: vnd.U64()}
			want += TXSIZE + 24
		case 1:
			a := ack{ackBlock: vnd.Bool(), ackStart: vnd.Bool()}
			for j := vnd.Choose(6); j > 0; j-- {
				a.txs = append(a.txs, tx)
				want += TXSIZE
			}
			m = a
			want += 8
		case 2:
			m = response{tx}
			want += TXSIZE
		case 3:
			m = announce{vnd.U64()}
			want += 32
		case 4:
			m = request{vnd.U64()}
			want += 32
		case 5:
			m = initialBroadcast{tx}
			want += TXSIZE
		case 6:
			s.HandleMessage(blockArrival{vnd.Choose(3)}, s, time.Hour)
			vnd.Assert(s.receivedBytes == want, "a server's own arrivals are accounted as received bytes")
			continue
		}
		s.HandleMessage(m, p, time.Hour)
		vnd.Assert(s.receivedBytes == want, "bytes received are not accounted")
	}
	vnd.Reach("end")
}

// VerifBatch decides N04 when one message completes many transactions, any of
// which may have been known.
func VerifBatch() {
	n := 1 + vnd.Choose(vnd.Param("n"))
	TXSIZE = 100
	txgen = &transactionGenerator{}
	s := newServers(&des.Simulator{}, 1, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1, initialFlood: vnd.Bool()})[0]
	var ps []*vPeer
	var algs []*vAlg
	for i := 0; i < 3; i++ {
		p, a := &vPeer{i}, &vAlg{}
		ps, algs = append(ps, p), append(algs, a)
		s.handlers[p] = peer{a, time.Second}
		s.peers = append(s.peers, p)
	}
	old := vnd.Choose(n)
	var txs, fresh []vTx
	for i := 0; i < n; i++ {
		t := vMake(i+1, vTs())
		txs = append(txs, t)
		if i != old {
			fresh = append(fresh, t)
		}
	}
	s.HandleMessage(vMsg{txs[old : old+1], 1}, ps[2], time.Hour)
	for _, a := range algs {
		a.given = nil
	}
	s.HandleMessage(vMsg{txs, 1}, ps[0], time.Hour)
	vnd.Assert(s.receivedTransactions == n && s.decodedTransactions == n, "received transactions are not counted exactly once")
	vnd.Assert(s.duplicateTransactions == 1, "duplicates are not counted")
	for i, a := range algs {
		if i == 0 {
			vnd.Assert(len(a.given) == 0, "a link is given what came from it")
			continue
		}
		vnd.Assert(len(a.given) == len(fresh), "a link is not given each new transaction exactly once")
		for _, e := range fresh {
			c := 0
			for _, t := range a.given {
				if t.Symbol.idx == e.Symbol.idx {
					c++
					vnd.Assert(t == e, "a link is given something else than the new transactions")
				}
			}
			vnd.Assert(c == 1, "a link is given something else than the new transactions")
		}
	}
	// all of it once more
	s.HandleMessage(vMsg{txs, 1}, ps[1], time.Hour)
	vnd.Assert(s.receivedTransactions == n && s.duplicateTransactions == n+1, "duplicates are not counted")
	vnd.Reach("end")
}
