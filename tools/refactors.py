#!/usr/bin/env python3
"""Behaviour-preserving edits, on which every check has to stay quiet.
usage: refactors.py [id ...]   applies each edit to a scratch copy of /repo, builds it,
runs the stable tests and then the quick checks of the properties it touches."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
eng = os.environ.get("ENG", V + "/engine/bin/engine")
R = {}
def ref(id, props, *edits):
    R[id] = (props.split(), edits)

RI = "R01 R02 R03 R04 R05 R06 R07"
ref("riblt-window-helper", RI,
 ("riblt/encoder.go", """	for e.queue[0].codedIdx == e.nextIdx {
		cw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)
		// generate the next mapping
		nextMap := e.mappings[e.queue[0].sourceIdx].nextIndex()
		e.queue[0].codedIdx = int(nextMap)
		e.queue.fixHead()
	}
	e.nextIdx += 1
	return cw
}
""", """	for {
		head := &e.queue[0]
		if head.codedIdx != e.nextIdx {
			break
		}
		cw = e.applyHead(cw, head, direction)
	}
	e.nextIdx++
	return cw
}

func (e *codingWindow[T]) applyHead(cw CodedSymbol[T], head *symbolMapping, direction int64) CodedSymbol[T] {
	src := head.sourceIdx
	head.codedIdx = int(e.mappings[src].nextIndex())
	s := e.symbols[src]
	e.queue.fixHead()
	return cw.apply(s, direction)
}
"""))
ref("riblt-decode-merge", RI,
 ("riblt/decoder.go", """		switch c.count {
		case 1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
				m := d.applyNewSymbol(ns, remove)
				d.remote.addHashedSymbolWithMapping(ns, m)
				d.pending -= 1
			}
		case -1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
				m := d.applyNewSymbol(ns, add)
				d.local.addHashedSymbolWithMapping(ns, m)
				d.pending -= 1
			}
		case 0:
""", """		switch c.count {
		case 1, -1:
			if h := c.sum.Hash(); h == c.checksum {
				var zero T
				ns := HashedSymbol[T]{zero.XOR(c.sum), h}
				dest := &d.remote
				if c.count < 0 {
					dest = &d.local
				}
				dest.addHashedSymbolWithMapping(ns, d.applyNewSymbol(ns, -c.count))
				d.pending--
			}
		case 0:
"""),
 ("riblt/decoder.go", """	if c.count == 0 && c.checksum == 0 {
		// still insert the codeword in case a symbol added later causes it to become dirty
		d.cs = append(d.cs, receivedSymbol[T]{c, false})
		return
	} else {
		if c.count >= -1 && c.count <= 1 {
			d.cs = append(d.cs, receivedSymbol[T]{c, true})
			d.dirty = append(d.dirty, len(d.cs)-1)
		} else {
			d.cs = append(d.cs, receivedSymbol[T]{c, false})
		}
		d.pending += 1
		return
	}
""", """	done := c.count == 0 && c.checksum == 0
	dirty := !done && c.count >= -1 && c.count <= 1
	if dirty {
		d.dirty = append(d.dirty, len(d.cs))
	}
	d.cs = append(d.cs, receivedSymbol[T]{c, dirty})
	if !done {
		d.pending += 1
	}
"""))
ref("riblt-index-reformulated", "R04 R07 R03 R01",
 ("riblt/random.go", """	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
	return s.lastIdx
""", """	factor := 1/math.Sqrt(1-xm) - 1
	step := math.Ceil((float64(s.lastIdx) + 1.5) * factor)
	next := s.lastIdx + uint64(step)
	s.lastIdx = next
	return next
"""))
ref("riblt-index-algebra", "R04 R07 R03 R01",
 ("riblt/random.go", """	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
""", """	j := float64(s.lastIdx) + 1.5
	s.lastIdx += uint64(math.Ceil(j/math.Sqrt(1-xm) - j))
"""))
ref("riblt-heap", RI,
 ("riblt/encoder.go", """		if rc := child + 1; rc < len(m) && m[rc].codedIdx < m[child].codedIdx {
			child = rc
		}
		if m[curr].codedIdx <= m[child].codedIdx {
			break
		}
""", """		if rc := child + 1; rc < len(m) && m[rc].codedIdx <= m[child].codedIdx {
			child = rc
		}
		if m[curr].codedIdx < m[child].codedIdx {
			break
		}
"""))
ref("riblt-sketch-apply", RI,
 ("riblt/sketch.go", """	for int(m.lastIdx) < len(s) {
		idx := m.lastIdx
		s[idx].sum = s[idx].sum.XOR(t.Symbol)
		s[idx].count += 1
		s[idx].checksum ^= t.Hash
		m.nextIndex()
	}
""", """	for idx := m.lastIdx; idx < uint64(len(s)); idx = m.nextIndex() {
		s[idx] = s[idx].apply(t, add)
	}
"""),
 ("riblt/sketch.go", """	for i := range s {
		s[i].sum""", """	for i := 0; i < len(s2); i++ {
		s[i].sum"""))
ref("riblt-reset", RI,
 ("riblt/decoder.go", """	if len(d.cs) != 0 {
		d.cs= d.cs[:0]
	}
	if len(d.dirty) != 0 {
		d.dirty = d.dirty[:0]
	}
	d.local.reset()
	d.remote.reset()
	d.window.reset()
	d.pending = 0
""", """	*d = Decoder[T]{}
"""))

LT = "L01 L02 L03 L04 L05 L06"
for p in ("lt", "iblt"):
    ref(p+"-forget-helper", LT,
 (p+"/decoder.go", """	for len(p.recentTransactions) > p.memory {
""", """	for p.memory < len(p.recentTransactions) {
		p.forgetOldest()
	}
}

func (p *Decoder[T]) forgetOldest() {
	{
"""),)
    ref(p+"-fifo", LT+" S01 S02 S04",
 (p+"/decoder.go", """		c := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
""", """		c := queue[0]
		queue = queue[1:]
"""))
    ref(p+"-switch", LT,
 (p+"/decoder.go", """		if !receivedExists {
			if !pendingExists {
				// we have never heard of it
				pending = &pendingTransaction[T]{}
				pending.saltedHash = member
				p.pendingTransactions[member] = pending
			}
			// link to the pending transaction
			pending.blocking = append(pending.blocking, cw)
			cw.members = append(cw.members, pending)
		} else {
			// sanity check
			if !pendingExists {
				// peel the transaction
				cw.symbol = cw.symbol.XOR(received.data)
			} else {
				panic("transaction is marked both received and pending")
			}
		}
""", """		switch {
		case receivedExists && pendingExists:
			panic("transaction is marked both received and pending")
		case receivedExists:
			cw.symbol = cw.symbol.XOR(received.data)
			continue
		case !pendingExists:
			pending = &pendingTransaction[T]{saltedHash: member}
			p.pendingTransactions[member] = pending
		}
		pending.blocking = append(pending.blocking, cw)
		cw.members = append(cw.members, pending)
"""))
    ref(p+"-index-permutation", LT+" S01 S04",
 (p+"/encoder.go", """	e.shuffleHistory = e.shuffleHistory[:0]
	for i := 0; i < deg; i++ {
		// randomly shuffle with any item with idx i, i+1, ..., n-1, i.e.,
		// items not yet selected
		r := e.r.Intn(n-i) + i
		e.shuffleHistory = append(e.shuffleHistory, r)
		e.window[i], e.window[r] = e.window[r], e.window[i]
		// this is now the selected item, add it to codeword
		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
		c.members[i] = e.window[i].saltedHash
	}
	// revert the shuffling
	for i := deg - 1; i >= 0; i-- {
		e.window[i], e.window[e.shuffleHistory[i]] = e.window[e.shuffleHistory[i]], e.window[i]
	}
""", """	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for i := 0; i < deg; i++ {
		r := e.r.Intn(n-i) + i
		perm[i], perm[r] = perm[r], perm[i]
		picked := e.window[perm[i]]
		c.symbol = c.symbol.XOR(picked.Transaction.data)
		c.members[i] = picked.saltedHash
	}
"""))
    ref(p+"-fresh-map", LT,
 (p+"/encoder.go", """	for k := range e.hashes {
		delete(e.hashes, k)
	}
""", """	e.hashes = make(map[uint32]struct{}, ws)
"""),
 (p+"/encoder.go", """	e.window = e.window[:0]
	e.windowSize""", """	e.window = nil
	e.windowSize"""),
 (p+"/encoder.go", """	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
	}
""", """	if excess := len(e.window) - e.windowSize; excess > 0 {
		for _, old := range e.window[:excess] {
			delete(e.hashes, old.saltedHash)
		}
		e.window = append([]saltedTransaction[T](nil), e.window[excess:]...)
	}
"""))

LD = "P01 P02 P03 P04 K03"
ref("ldpc-no-pool", LD,
 ("ldpc/decoder.go", """	cw := pendingCodewordPool.Get().(*PendingCodeword)
	cw.reset()
	cw.symbol = rawCodeword.Symbol
""", """	cw := &PendingCodeword{symbol: rawCodeword.Symbol}
"""),
 ("ldpc/decoder.go", """		if c.freed {
			pendingCodewordPool.Put(c)
		}
""", ""),
 ("ldpc/decoder.go", """	if cw.decoded {
		pendingCodewordPool.Put(cw)
	}
""", ""))
ref("ldpc-helpers", LD,
 ("ldpc/decoder.go", """	p.hasher.Reset()
	p.hasher.Write(t.hash[:])
	hash := (uint32)(p.hasher.Sum64())
	if existing""", """	hash := p.salted(t)
	if existing"""),
 ("ldpc/decoder.go", """					p.hasher.Reset()
					p.hasher.Write(decodedTx.hash[:])
					computedHash := (uint32)(p.hasher.Sum64())
""", """					computedHash := p.salted(decodedTx)
"""),
 ("ldpc/decoder.go", """func (p *Decoder) storeNewTransaction""", """func (p *Decoder) salted(t *Transaction) uint32 {
	p.hasher.Reset()
	p.hasher.Write(t.hash[:])
	return uint32(p.hasher.Sum64())
}

func (p *Decoder) storeNewTransaction"""))
ref("ldpc-guard", LD,
 ("ldpc/encoder.go", """	for idx := 0; idx < deg; idx++ {
		*selected = append(*selected, e.window[idx])
	}
""", """	*selected = append(*selected, e.window[:deg]...)
"""),
 ("ldpc/encoder.go", """	for idx, item := range *selected {
		c.Members[idx] = item.saltedHash
		c.Symbol.XOR(&item.serialized)
""", """	for idx := len(*selected) - 1; idx >= 0; idx-- {
		item := (*selected)[idx]
		c.Members[idx] = item.saltedHash
		c.Symbol.XOR(&item.serialized)
"""))
DE = "D01 D02"
ref("des-less", DE,
 ("des/simulator.go", """	if pq[i].arrival < pq[j].arrival {
		return true
	} else if pq[i].arrival == pq[j].arrival {
		return pq[i].seq < pq[j].seq
	}
	return false
""", """	if pq[i].arrival != pq[j].arrival {
		return pq[i].arrival < pq[j].arrival
	}
	return pq[i].seq < pq[j].seq
"""),
 ("des/simulator.go", """	if msg.To == nil {
		m := queuedMessage{s.time + msg.Delay, s.seq, from, from, msg.Payload}
		heap.Push(&s.mq, m)
	} else {
		m := queuedMessage{s.time + msg.Delay, s.seq, from, msg.To, msg.Payload}
		heap.Push(&s.mq, m)
	}
	s.seq += 1
""", """	to := msg.To
	if to == nil {
		to = from
	}
	heap.Push(&s.mq, queuedMessage{arrival: s.time + msg.Delay, seq: s.seq, from: from, to: to, payload: msg.Payload})
	s.seq++
"""))
ref("des-pointer-queue", DE,
 ("des/simulator.go", "type priorityQueue []queuedMessage", "type priorityQueue []*queuedMessage"),
 ("des/simulator.go", "		heap.Push(&s.mq, m)\n", "		heap.Push(&s.mq, &m)\n", "all"),
 ("des/simulator.go", "heap.Pop(&s.mq).(queuedMessage)", "heap.Pop(&s.mq).(*queuedMessage)"),
 ("des/simulator.go", "msg := x.(queuedMessage)", "msg := x.(*queuedMessage)"),
 ("des/simulator.go", "(*pq)[idx].payload = nil", "(*pq)[idx] = nil"))

NS = "N01 N02 N03 N04 N05 S05 M01"
ref("newsim-inshard", NS,
 ("newsim/coding.go", """			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Encoder""", """			if cw.covers(shardHash) {
				n.Encoder"""),
 ("newsim/coding.go", """			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Decoder""", """			if cw.covers(shardHash) {
				n.Decoder"""),
 ("newsim/coding.go", "type senderConfig struct", """func (c codeword) covers(h uint64) bool {
	if c.startHash < c.endHash {
		return c.startHash <= h && h < c.endHash
	}
	return h >= c.startHash || h < c.endHash
}

type senderConfig struct"""))
ref("newsim-receive-helper", NS,
 ("newsim/module.go", """			tx := ib.payload
			if _, there := s.received[tx.Symbol.idx]; !there {
				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
				s.forwardTransaction(tx, from)
				s.received[tx.Symbol.idx] = struct{}{}
				s.decodedTransactions += 1
				s.receivedTransactions += 1
			} else {
				s.duplicateTransactions += 1
			}
""", """			s.learn(ib.payload, from, timestamp)
"""),
 ("newsim/module.go", """			for _, tx := range decoded {
				if _, there := s.received[tx.Symbol.idx]; !there {
					s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
					s.forwardTransaction(tx, from)
					s.received[tx.Symbol.idx] = struct{}{}
					s.decodedTransactions += 1
					s.receivedTransactions += 1
				} else {
					s.duplicateTransactions += 1
				}
			}
""", """			for i := range decoded {
				s.learn(decoded[i], from, timestamp)
			}
"""),
 ("newsim/module.go", "func (s *server) HandleMessage", """func (s *server) learn(tx riblt.HashedSymbol[transaction], from des.Module, at time.Duration) {
	if _, there := s.received[tx.Symbol.idx]; there {
		s.duplicateTransactions++
		return
	}
	s.received[tx.Symbol.idx] = struct{}{}
	s.receivedTransactions++
	s.decodedTransactions++
	s.forwardTransaction(tx, from)
	s.latencySketch.recordTxLatency(tx.Symbol, at)
}

func (s *server) HandleMessage"""))
ref("newsim-typeswitch", NS,
 ("newsim/module.go", """	if ba, isBa := payload.(blockArrival); isBa {
""", """	switch ba := payload.(type) {
	case blockArrival:
"""),
 ("newsim/module.go", """		outbox = append(outbox, des.OutgoingMessage{newBa, nil, intv})
	} else {
		if ib""", """		outbox = append(outbox, des.OutgoingMessage{newBa, nil, intv})
	default:
		if ib"""))
ref("newsim-outbox-nil", NS,
 ("newsim/coding.go", "		c.sender.outbox = c.sender.outbox[:0]\n", "		c.sender.outbox = nil\n"),
 ("newsim/coding.go", "		c.receiver.outbox = c.receiver.outbox[:0]\n", "		c.receiver.outbox = nil\n"),
 ("newsim/pull.go", """		outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		c.outbox = c.outbox[:0]
	}
""", """		outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
	}
	c.outbox = c.outbox[:0]
"""),
 ("newsim/coding.go", """		remote, decoded := c.onCodeword(m)
		if decoded {
			return remote
		} else {
			return nil
		}
""", """		remote, _ := c.onCodeword(m)
		return remote
"""))
ref("newsim-fill-loop", NS,
 ("newsim/coding.go", """		n.outbox = append(n.outbox, cw)
		n.inFlight += 1
		for i := 0; i < burst; i++ {
			cw := codeword{}
			cw.CodedSymbol = n.Encoder.ProduceNextCodedSymbol()
			n.outbox = append(n.outbox, cw)
			n.inFlight += 1
		}
""", """		n.outbox = append(n.outbox, cw)
		for ; burst > 0; burst-- {
			n.outbox = append(n.outbox, codeword{CodedSymbol: n.Encoder.ProduceNextCodedSymbol()})
			n.inFlight++
		}
		n.inFlight++
"""))
ref("newsim-stable-filter", NS,
 ("newsim/coding.go", """				l := len(n.buffer) - 1
				n.buffer[tidx] = n.buffer[l]
				n.buffer = n.buffer[:l]
				//			okay = true
""", """				n.buffer = append(n.buffer[:tidx], n.buffer[tidx+1:]...)
"""))
ref("sketch-latency", "M01",
 ("newsim/types.go", "	latency := tp.Seconds() - tx.ts.Seconds()\n	t.sketch.Add(latency)", "	t.recordRaw((tp - tx.ts).Seconds(), tp)"),
 ("simulator/transaction.go", "	latency := tp.Seconds() - tx.ts.Seconds()\n	t.sketch.Add(latency)", "	t.recordRaw(tp.Seconds()-tx.ts.Seconds(), tp)"))
SI = "S01 S02 S03 S04 S05 M01"
ref("sim-limiter", SI,
 ("simulator/module.go", """	nextSlot := ts
	if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {
		nextSlot = s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval
	}
	for _, tx := range txs {
		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})
		s.forwardRateLimiter.lastScheduled = nextSlot
		nextSlot += s.forwardRateLimiter.minInterval
	}
	return out
""", """	for i := range txs {
		out = append(out, des.OutgoingMessage{loopback{txs[i]}, nil, s.forwardRateLimiter.next(ts) - ts})
	}
	return out
"""),
 ("simulator/module.go", "func (a *server) newHandler()", """func (r *rateLimiter) next(now time.Duration) time.Duration {
	slot := r.lastScheduled + r.minInterval
	if slot < now {
		slot = now
	}
	r.lastScheduled = slot
	return slot
}

func (a *server) newHandler()"""))
ref("sim-ack-flow", SI,
 ("simulator/node.go", """	if !n.currentBlockReceived && len(n.curCodewords) > n.detectThreshold {
		notDecoded := 0
		limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)
//		limit := 0 
		for _, c := range n.curCodewords {
			if !c.Decoded() {
				notDecoded += 1
			}
		}
		if notDecoded <= limit {
			n.currentBlockReceived = true
			n.outbox = append(n.outbox, ack{true})
			return tx
		}
	}
	n.outbox = append(n.outbox, ack{false})
	return tx
}
""", """	finished := !n.currentBlockReceived && n.blockDone()
	if finished {
		n.currentBlockReceived = true
	}
	n.outbox = append(n.outbox, ack{finished})
	return tx
}

func (n *receiver) blockDone() bool {
	total := len(n.curCodewords)
	if total <= n.detectThreshold {
		return false
	}
	decoded := 0
	for _, c := range n.curCodewords {
		if c.Decoded() {
			decoded++
		}
	}
	return total-decoded <= int(float64(total)*n.targetCodewordLoss)
}
"""),
 ("simulator/node.go", """	for n.inFlight < n.sendWindow {
		cw, yes := n.tryProduceCodeword(mayStartNewBlock)
		if !yes {
			return
		}
		n.outbox = append(n.outbox, cw)
		n.inFlight += 1
	}
	return
""", """	for {
		if n.inFlight >= n.sendWindow {
			return
		}
		cw, ok := n.tryProduceCodeword(mayStartNewBlock)
		if !ok {
			return
		}
		n.inFlight++
		n.outbox = append(n.outbox, cw)
	}
"""))
ref("sim-early-return", SI,
 ("simulator/node.go", """	} else if (!n.encodingCurrentBlock) && (!mayStartNewBlock) {
		return cw, false
	}
	cw.Codeword""", """	}
	cw.Codeword"""),
 ("simulator/node.go", """	cw := codeword{}
	if (!n.encodingCurrentBlock) && mayStartNewBlock {
""", """	cw := codeword{}
	if !(n.encodingCurrentBlock || mayStartNewBlock) {
		return cw, false
	}
	if !n.encodingCurrentBlock {
"""))
ref("sim-overlap-helper", SI,
 ("simulator/module.go", """					overlap := 0
					for _, tx := range ourHandler.sender.currentBlock {
						if peerHandler.receiver.HasDecoded(tx) {
							overlap += 1
						}
					}
					ratio := float64(overlap) / float64(len(ourHandler.sender.currentBlock))
""", """					ratio := overlapRatio(ourHandler.sender.currentBlock, peerHandler.receiver)
"""),
 ("simulator/module.go", "func (s *server) HandleMessage", """func overlapRatio(block []lt.Transaction[transaction], r *receiver) float64 {
	n := 0
	for i := range block {
		if r.HasDecoded(block[i]) {
			n++
		}
	}
	return float64(n) / float64(len(block))
}

func (s *server) HandleMessage"""))
NO = "K01 K02 K03 K04"
ref("node-retire-helper", NO,
 ("node/receiver.go", """			loss := 0
			for len(r.rxWindow) > 0 {
				head := r.rxWindow[0]
				dur := now.Sub(head.receivedTime)
				if dur < r.timeout {
					break
				}
				if !head.Decoded() {
					loss += 1
				}
				head.Free()
				r.rxWindow = r.rxWindow[1:]
			}
			r.ourLoss <- loss
""", """			r.ourLoss <- r.retire(now)
"""),
 ("node/receiver.go", "func (r *receiver) decode(", """func (r *receiver) retire(now time.Time) (loss int) {
	n := 0
	for _, head := range r.rxWindow {
		if now.Sub(head.receivedTime) < r.timeout {
			break
		}
		if !head.Decoded() {
			loss++
		}
		head.Free()
		n++
	}
	r.rxWindow = r.rxWindow[n:]
	return loss
}

func (r *receiver) decode("""))
ref("node-only-real-loss", NO,
 ("node/receiver.go", "			r.ourLoss <- loss\n", "			if loss > 0 {\n				r.ourLoss <- loss\n			}\n"))
ref("node-notify", NO,
 ("node/controller.go", """				if tx.Expired {
					peer.notifyExpiredTransaction(tx.Transaction)
				} else {
					peer.notifyUnexpiredTransaction(tx.Transaction)
				}
""", """				if !tx.Expired {
					peer.newTxToSender <- tx.Transaction
				}
				peer.notifyExpiredTransaction(tx.Transaction)
"""),
 ("node/controller.go", """			for _, peer := range c.peers {
				peer.notifyUnexpiredTransaction(tx)
			}
""", """			for i := range c.peers {
				c.peers[i].notifyUnexpiredTransaction(tx)
			}
"""))
ref("node-notify-order", NO,
 ("node/controller.go", """	h.newTxToSender <- t
	h.newTxToReceiver <- t 
""", """	h.newTxToReceiver <- t
	h.newTxToSender <- t
"""))
ref("node-sender-helper", NO,
 ("node/sender.go", """				case ch <- nc:
					s.accumLoss = 0
					s.cwRate -= s.rateDecreaseConstant
					if s.cwRate < s.minRate {
						s.cwRate = s.minRate
					}
""", """				case ch <- nc:
					s.sent()
"""),
 ("node/sender.go", "func (s *sender) loop(", """func (s *sender) sent() {
	s.accumLoss = 0
	rate := s.cwRate - s.rateDecreaseConstant
	if !(rate >= s.minRate) {
		rate = s.minRate
	}
	s.cwRate = rate
}

func (s *sender) loop("""))
ref("node-handshake", NO,
 ("node/controller.go", """	_, err := conn.Write(encoderKey[:])
	if err != nil {
		return err
	}
""", """	if _, err := conn.Write(encoderKey[:]); err != nil {
		return err
	}
"""),
 ("node/controller.go", "	_, err = io.ReadFull(conn, decoderKey[:])", "	_, err := io.ReadFull(conn, decoderKey[:])"))
ref("filters", "F01",
 *[(p+"/filter.go", """	if val > m.max {
		m.max = val
	}
	return
""", """	if m.max < val {
		m.max = val
	}
""") for p in ("newsim", "simulator")],
 *[(p+"/filter.go", """	diff := d.current - d.lastRead
	d.lastRead = d.current
	return diff
""", """	prev := d.lastRead
	d.lastRead = d.current
	return d.lastRead - prev
""") for p in ("newsim", "simulator")])
ref("topo-helper", "T01",
 *[e for p in ("newsim", "simulator") for e in [
 (p+"/topology.go", """		var a, b, d int
		n, err := fmt.Sscanf(s.Text(), "%d,%d,%d", &a, &b, &d)
		if err != nil {
			panic(err)
		}
		if n == 3 {
			res = append(res, connection{a, b, time.Duration(d) * time.Millisecond})
			if a > maxIdx {
				maxIdx = a
			}
			if b > maxIdx {
				maxIdx = b
			}
		}
""", """		var c connection
		ms := 0
		if _, err := fmt.Sscanf(s.Text(), "%d,%d,%d", &c.a, &c.b, &ms); err != nil {
			panic(err)
		}
		c.delay = time.Duration(ms) * time.Millisecond
		for _, i := range []int{c.a, c.b} {
			if i >= maxIdx {
				maxIdx = i
			}
		}
		res = append(res, c)
""")]])
ref("topo-split", "T01",
 *[e for p in ("newsim", "simulator") for e in [
 (p+"/topology.go", """		var a, b, d int
		n, err := fmt.Sscanf(s.Text(), "%d,%d,%d", &a, &b, &d)
		if err != nil {
			panic(err)
		}
		if n == 3 {
""", """		f := strings.Split(s.Text(), ",")
		if len(f) != 3 {
			panic("malformed line")
		}
		a, err := strconv.Atoi(f[0])
		if err != nil {
			panic(err)
		}
		b, err := strconv.Atoi(f[1])
		if err != nil {
			panic(err)
		}
		d, err := strconv.Atoi(f[2])
		if err != nil {
			panic(err)
		}
		{
"""), (p+"/topology.go", '	"fmt"\n', '	"strconv"\n	"strings"\n')]])
ref("topo-readfile", "T01",
 *[e for p in ("newsim", "simulator") for e in [
 (p+"/topology.go", """	file, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer file.Close()

	s := bufio.NewScanner(file)
	for s.Scan() {
""", """	content, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	lines := strings.Split(string(content), "\\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for _, line := range lines {
		line = strings.TrimSuffix(line, "\\r")
"""), (p+"/topology.go", "s.Text()", "line"), (p+"/topology.go", """	if err := s.Err(); err != nil {
		panic(err)
	}
""", ""), (p+"/topology.go", '	"bufio"\n', ""), (p+"/topology.go", '	"os"\n', '	"os"\n	"strings"\n')]])

def main():
    bad = []
    for i in sys.argv[1:] or R:
        props, edits = R[i]
        S = "/tmp/refwork." + i
        shutil.rmtree(S, ignore_errors=True)
        shutil.copytree("/repo", S, symlinks=True)
        ok = True
        for e in edits:
            f = S + "/" + e[0]; s = open(f).read()
            if e[1] not in s:
                print(i, "NO MATCH", e[0], e[1][:60]); ok = False; break
            open(f, "w").write(s.replace(e[1], e[2]) if len(e) > 3 else s.replace(e[1], e[2], 1))
        if ok:
            pk = sorted({"./" + e[0].split("/")[0] for e in edits})
            r = subprocess.run(["go", "build", "-o", "/dev/null"] + pk if len(pk) == 1 else ["go", "build"] + pk, cwd=S, env=ENV, capture_output=True, text=True)
            if r.returncode:
                print(i, "BUILD", r.stdout, r.stderr); ok = False
            r = subprocess.run(["go", "test", "-vet=off", "./riblt", "./lt", "./iblt"], cwd=S, env=ENV, capture_output=True, text=True)
            if ok and r.returncode:
                print(i, "TESTS", r.stdout[-600:]); ok = False
        if not ok: bad.append(i)
        for p in props if ok else ():
            t = time.time()
            r = subprocess.run([eng, "check", p, "--repo", S], capture_output=True, text=True, cwd=V)
            out = r.stdout + r.stderr
            note = [l for l in out.splitlines() if "VIOLATION" in l or "INCONCL" in l]
            if r.returncode or note:
                print("%-26s %s rc=%d %3.0fs %s" % (i, p, r.returncode, time.time() - t, " | ".join(note)[:300]), flush=True)
            if r.returncode: bad.append(i + ":" + p)
        print(i, "done", flush=True)
        shutil.rmtree(S)
    print("ALARMS:", bad)
main()
