package main

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vLink is a link with the messages under way and the reference state of the
// protocol: what each end has to reconcile and which block is in progress.
type vLink struct {
	a, b   vEnd // a sends codewords, b acknowledges them
	snd    *sender
	rand   uint64
	ab, ba []any
	txs    []vTx

	waitA, waitB   int // transactions waiting at each end
	blockA, blockB int // those in the current block
	gotA, gotB     int // handed over at each end
	hasA, hasB     int // given to each end
	started        bool
	open           bool // the receiver has not completed the current block
	acked          bool // the sender knows that the current block is complete
	sent           int  // codewords of the current block
	acks           int  // acknowledgements of the current block the sender received
	prevAcks       int
	begun          bool // the receiver has seen the start of the current block
	seen           int
	blocks         int
}

func vNewLink(shards int, overhead float64, seed int) *vLink {
	a, b, sa, sb := vCodingLink(shards, overhead, seed)
	l := &vLink{a: a, b: b, acked: true}
	l.snd = sa.handlers[sb].algorithm.(coding).sender
	l.rand = sb.handlers[sa].algorithm.(coding).receiver.shardRandomizer
	return l
}

// in tells whether a transaction belongs to the shard of a block.
func (l *vLink) in(i int, cw codeword) bool {
	if cw.startHash == 0 && cw.endHash == 0 {
		return true
	}
	h := l.txs[i].Hash * l.rand
	if cw.startHash < cw.endHash {
		return h >= cw.startHash && h < cw.endHash
	}
	return h >= cw.startHash || h < cw.endHash
}

// take moves the waiting transactions of a block's shard into the block.
func (l *vLink) take(wait *int, cw codeword) (m int) {
	for i := range l.txs {
		if *wait>>uint(i)&1 != 0 && l.in(i, cw) {
			m |= 1 << uint(i)
		}
	}
	*wait &^= m
	return
}

// fromA looks at what the sending end put out.
func (l *vLink) fromA() {
	startedNow := false
	n := 0
	for _, m := range l.a.drain() {
		cw, is := m.(codeword)
		vnd.Assert(is, "the sender sends something else than codewords")
		n++
		if cw.newBlock {
			vnd.Assert(l.acked, "a block was started before the previous one was complete")
			l.acked = false
			l.started = true
			l.begun = false
			l.blocks++
			l.prevAcks = l.acks
			l.sent, l.acks = 0, 0
			startedNow = true
			l.blockA = l.take(&l.waitA, cw)
			vnd.Assert(vIsBlock(cw.CodedSymbol, l.txs, l.blockA), "a block does not hold what was waiting for it")
			vnd.Reach("block")
		} else {
			vnd.Assert(l.started && !l.acked, "a codeword of no block")
		}
		l.sent++
		l.ab = append(l.ab, m)
	}
	out := l.sent - l.acks
	w := l.snd.sendWindow
	vnd.Assert(!l.started || w >= 1, "the window fell below one")
	if startedNow {
		vnd.Assert(float64(out-1) < w || out <= 1+l.prevAcks, "a block starts with too many codewords")
	} else if n > 0 {
		vnd.Assert(float64(out-1) < w, "more codewords under way than the window allows")
		vnd.Reach("window")
	}
}

// fromB looks at what the receiving end put out.
func (l *vLink) fromB() {
	for _, m := range l.b.drain() {
		_, is := m.(ack)
		vnd.Assert(is, "the receiver sends something else than acknowledgements")
		l.ba = append(l.ba, m)
	}
}

func (l *vLink) alive() {
	vnd.Assert(!l.started || len(l.ab)+len(l.ba) > 0, "nothing under way: the link stalls")
}

// arrive gives transaction i to one end.
func (l *vLink) arrive(i int, atA bool) {
	if atA {
		l.waitA |= 1 << uint(i)
		l.hasA |= 1 << uint(i)
		l.a.alg.forwardTransaction(l.txs[i])
	} else {
		l.waitB |= 1 << uint(i)
		l.hasB |= 1 << uint(i)
		l.b.alg.forwardTransaction(l.txs[i])
	}
	l.fromA()
	l.fromB()
	vnd.Assert(!atA || l.started, "a transaction does not start reconciliation")
	l.alive()
}

// toB delivers the oldest codeword.
func (l *vLink) toB() {
	cw := l.ab[0].(codeword)
	l.ab = l.ab[1:]
	l.seen++
	if cw.newBlock {
		l.seen = 0
		l.begun = true
		l.open = true
		l.blockB = l.take(&l.waitB, cw)
	}
	if l.seen >= vnd.Param("cws") || l.sent > 3*vnd.Param("cws") {
		vnd.Stop() // blocks that take longer are outside the bounds
	}
	got := l.b.alg.handleMessage(cw)
	k := len(l.ba)
	l.fromB()
	l.fromA()
	if !l.open {
		vnd.Assert(len(l.ba) == k, "a codeword of a complete block was answered")
		vnd.Assert(len(got) == 0, "transactions from a complete block")
		vnd.Reach("late")
		return
	}
	vnd.Assert(len(l.ba) == k+1, "a codeword was not answered exactly once")
	r := l.ba[k].(ack)
	vnd.Assert(r.ackStart == cw.newBlock, "the answer to a block's start is marked wrong")
	if !r.ackBlock {
		vnd.Assert(len(got) == 0 && len(r.txs) == 0, "transactions from an incomplete block")
		return
	}
	l.open = false
	m := vMask(got, l.txs, "handed to the receiver")
	vnd.Assert(m == l.blockA&^l.blockB, "the receiver did not get exactly the sender's transactions it lacks")
	m = vMask(r.txs, l.txs, "returned to the sender")
	vnd.Assert(m == l.blockB&^l.blockA, "the sender is not sent exactly the transactions it lacks")
	l.gotB |= l.blockA &^ l.blockB
	vnd.Reach("complete")
	if l.blockA&^l.blockB != 0 && l.blockB&^l.blockA != 0 {
		vnd.Reach("exchange")
	}
}

// toA delivers the oldest acknowledgement.
func (l *vLink) toA() {
	r := l.ba[0].(ack)
	l.ba = l.ba[1:]
	l.acks++
	if r.ackBlock {
		l.acked = true
	}
	want := 0
	if r.ackBlock {
		want = l.blockB &^ l.blockA
	}
	got := l.a.alg.handleMessage(r)
	m := vMask(got, l.txs, "handed to the sender")
	vnd.Assert(m == want, "the sender did not get exactly the receiver's transactions it lacks")
	l.gotA |= m
	l.fromA()
	l.fromB()
	l.alive()
}

// VerifLink decides N02 and N03 for every interleaving of arrivals and
// deliveries on one link.
func VerifLink() {
	n, k := vnd.Param("n"), vnd.Param("k")
	l := vNewLink(vnd.Param("shards"), float64(vnd.Param("overhead"))/100, vnd.Param("seed"))
	atB, empty := false, false // the previous step was at b, with nothing under way to a
	for s := 0; s < k; s++ {
		last := len(l.txs)
		was := len(l.ba) == 0
		c := vnd.Choose(4 + last)
		i, side := c-4, c == 2
		if c >= 4 {
			bit := 1 << uint(i)
			side = (l.hasA|l.gotA)&bit == 0
			if !side && (l.hasB|l.gotB)&bit != 0 {
				vnd.Stop()
			}
		}
		// steps at different ends can be exchanged: a's go first
		if atB && (c == 1 && !empty || c != 1 && side) {
			vnd.Stop()
		}
		switch {
		case c == 0:
			if len(l.ab) == 0 {
				vnd.Stop()
			}
			l.toB()
		case c == 1:
			if len(l.ba) == 0 {
				vnd.Stop()
			}
			l.toA()
		case c < 4:
			if last == n {
				vnd.Stop()
			}
			l.txs = append(l.txs, vMake(last, vTs()))
			l.arrive(last, side)
		default:
			l.arrive(i, side)
		}
		atB, empty = c == 0 || c != 1 && !side, was
	}
	vnd.Reach("end")
}

// VerifRun decides N02 and N03 over many blocks: messages are delivered as
// they come, transactions arrive anywhere in between.
func VerifRun() {
	n, rounds := vnd.Param("n"), vnd.Param("rounds")
	l := vNewLink(vnd.Param("shards"), float64(vnd.Param("overhead"))/100, vnd.Param("seed"))
	// transactions with given hashes; most are there early, two come at any time
	mix := vnd.Choose(vnd.Param("mixes"))
	for i := 0; i < n; i++ {
		l.txs = append(l.txs, vMake(i+100*mix, vTs()))
	}
	when := vnd.Choose(rounds)
	again := vnd.Choose(2)
	atA := vnd.Bool()
	lag := vnd.Choose(2) * 3
	for i := 2; i < n; i++ {
		switch k := (i*7 + mix) % 5; {
		case k < 2:
			l.arrive(i, k == 0)
		default:
			l.arrive(i, k == 2)
			l.arrive(i, k != 2)
		}
	}
	for r := 0; r < rounds; r++ {
		if r == when {
			l.arrive(0, atA)
			if again == 1 {
				l.arrive(0, !atA)
			}
		}
		if r == when+2 {
			l.arrive(1, !atA)
		}
		for len(l.ab) > lag {
			l.toB()
		}
		for len(l.ba) > 0 {
			l.toA()
		}
		if len(l.ab) > 0 && lag > 0 {
			l.toB()
		}
	}
	vnd.Reach("end")
}
