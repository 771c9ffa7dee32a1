SI = '''
package main

import (
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
)

func dTx(i int) lt.Transaction[transaction] {
	return lt.NewTransaction[transaction](transaction{uint64(i), 5})
}

func dSender(th int, c float64) *sender {
	r := rand.New(rand.NewSource(1))
	return &sender{
		Encoder:      lt.NewEncoder[transaction](r, testKey, nil, 0),
		rng:          r,
		sendWindow:   th,
		senderConfig: senderConfig{c, th},
	}
}
func dServers(n int, c serverConfig) (*des.Simulator, []*server) {
	sim := &des.Simulator{}
	return sim, newServers(sim, n, 1, c)
}

type dDist uint64

func (d dDist) Uint64() uint64 { return uint64(d) }

func dCw(newBlock bool, ids ...int) codeword {
	e := lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, dDist(len(ids)), len(ids))
	for _, i := range ids {
		e.AddTransaction(dTx(i))
	}
	return codeword{e.ProduceCodeword(), newBlock}
}

var _ = time.Second
var _ = dSender
var _ = dServers
var _ = dCw
'''
bug("sim-inflight-reset", "S01", "simulator",
    [("simulator/node.go", "			cw.newBlock = true\n			n.encodingCurrentBlock = true\n", "			cw.newBlock = true\n			n.encodingCurrentBlock = true\n			n.inFlight = 0\n")],
    "a block acknowledged while codewords of it are unacknowledged, with enough transactions for the next block waiting",
    "Starting a block forgets the codewords still outstanding; their late acknowledgements then let the sender exceed its window.",
    SI + '''
func TestDemo(t *testing.T) {
	s := dSender(2, 0.5)
	for i := 0; i < 8; i++ {
		s.onTransaction(dTx(i), true)
	}
	sent, acked := 0, 0
	for k := 0; k < 40; k++ {
		sent += len(s.outbox)
		s.outbox = s.outbox[:0]
		win := s.sendWindow
		if win < 2 {
			win = 2
		}
		if k > 12 && sent-acked > win+8 {
			t.Fatalf("%d codewords unacknowledged with a window of %d", sent-acked, s.sendWindow)
		}
		if sent-acked > 8 {
			t.Fatalf("%d codewords unacknowledged with a window of %d", sent-acked, s.sendWindow)
		}
		if sent > acked {
			acked++
			s.onAck(ack{k%2 == 0}, true)
		}
		for i := 0; i < 2; i++ {
			s.onTransaction(dTx(100+2*k+i), true)
		}
	}
}
''')
bug("sim-tolerance-rounded", "S02", "simulator",
    [("simulator/node.go", "		limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)\n", "		limit := int(float64(len(n.curCodewords))*n.targetCodewordLoss + 0.5)\n")],
    "a tolerated loss that is not a whole number of codewords",
    "The tolerated number of undecoded codewords is rounded up, so a block is acknowledged with more undecoded codewords than tolerated.",
    SI + '''
func TestDemo(t *testing.T) {
	r := &receiver{Decoder: lt.NewDecoder[transaction](testKey, 1000), receiverConfig: receiverConfig{1, 0.3}}
	r.onCodeword(dCw(true, 1, 2))
	r.onCodeword(dCw(false, 3))
	// two codewords, one undecoded: 0.5 > 0.3
	for i, a := range r.outbox {
		if a.(ack).ackBlock {
			t.Fatalf("codeword %d: the block was acknowledged with half of it undecoded", i)
		}
	}
}
''')
bug("sim-limiter-burst", "S03", "simulator",
    [("simulator/module.go", "	for _, tx := range txs {\n		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n		s.forwardRateLimiter.lastScheduled = nextSlot\n		nextSlot += s.forwardRateLimiter.minInterval\n	}", "	if len(txs) > 0 {\n		s.forwardRateLimiter.lastScheduled = nextSlot\n	}\n	for _, tx := range txs {\n		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n		nextSlot += s.forwardRateLimiter.minInterval\n	}")],
    "a burst of several transactions followed by another before the limiter is idle",
    "Only the first transaction of a burst is remembered by the limiter, so the next burst overlaps with it.",
    SI + '''
func TestDemo(t *testing.T) {
	_, ss := dServers(1, serverConfig{blockArrivalIntv: 1e-9, decoderMemory: 10})
	s := ss[0]
	s.forwardRateLimiter.minInterval = 10
	last := time.Duration(-10)
	for b := 0; b < 3; b++ {
		ts := time.Duration(100 + b)
		for _, m := range s.scheduleForwardingTransactions(nil, []lt.Transaction[transaction]{dTx(3 * b), dTx(3*b + 1)}, ts) {
			at := ts + m.Delay
			if at < last+10 {
				t.Fatalf("scheduled at %d, %d after the previous one", at, at-last)
			}
			last = at
		}
	}
}
''')
bug("sim-sync-stops", "S04", "simulator",
    [("simulator/module.go", "			handler.sender.tryFillSendWindow(true)\n		}\n		outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})\n", "			handler.sender.tryFillSendWindow(true)\n			if len(handler.sender.outbox) > 0 {\n				outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})\n			}\n		}\n")],
    "synchronized block generation and a period in which a server sends nothing, or sends to several neighbours",
    "A synchronized server reschedules its periodic work once per neighbour it sent something to, instead of exactly once.",
    SI + '''
func TestDemo(t *testing.T) {
	_, ss := dServers(2, serverConfig{blockArrivalIntv: 1e-9, decoderMemory: 10, forceSynchronize: time.Second, senderConfig: senderConfig{0.5, 1}})
	connectServers(ss[0], ss[1], time.Millisecond)
	n := 0
	for _, m := range ss[0].HandleMessage(createNewBlock{}, ss[0], time.Second) {
		if _, is := m.Payload.(createNewBlock); is {
			n++
		}
	}
	if n != 1 {
		t.Fatalf("the next synchronization was scheduled %d times", n)
	}
}
''')
bug("sim-overlap-busy", "M01", "simulator",
    [("simulator/module.go", "	// see if we are starting a new block, and compute overlap\n	outbox = s.collectOutgoingMessages(outbox)\n", "	// see if we are starting a new block, and compute overlap\n	outbox = s.collectOutgoingMessages(outbox)\n	if timestamp < s.forwardRateLimiter.lastScheduled {\n		return outbox // busy forwarding\n	}\n")],
    "a block started while transactions wait in the forwarding limiter",
    "The overlap of blocks that start while the limiter is busy is not sampled.",
    SI + '''
func TestDemo(t *testing.T) {
	_, ss := dServers(2, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 3, decoderMemory: 100, senderConfig: senderConfig{1, 1}})
	connectServers(ss[0], ss[1], time.Millisecond)
	s := ss[0]
	s.overlapSketch = newDistributionSketch(0)
	s.forwardRateLimiter.minInterval = time.Second
	out := s.HandleMessage(blockArrival{3}, s, 10*time.Second)
	for _, m := range out {
		if lp, is := m.Payload.(loopback); is {
			s.HandleMessage(lp, s, 10*time.Second+m.Delay)
			break
		}
	}
	if n := s.overlapSketch.sketch.GetCount(); n != 1 {
		t.Fatalf("%v samples for the block started", n)
	}
}
''')
bug("sim-maximum-sticky", "F01", "simulator",
    [("simulator/filter.go", "	res := m.max\n	m.max = 0\n	return res\n", "	res := m.max\n	if res > 1 {\n		m.max = 0\n	}\n	return res\n")],
    "a running maximum of at most one",
    "A small maximum survives being read.",
    SI + '''
func TestDemo(t *testing.T) {
	m := maximum[float64]{}
	m.record(0.5)
	if m.get() != 0.5 || m.get() != 0 {
		t.Fatal("the maximum does not start afresh after it was read")
	}
}
''')
