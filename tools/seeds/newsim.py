NS = '''
package main

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

type dMod int

func (m *dMod) HandleMessage(payload any, from des.Module, ts time.Duration) []des.OutgoingMessage {
	return nil
}

func dTx(i int) riblt.HashedSymbol[transaction] {
	t := transaction{uint64(i), 5}
	return riblt.HashedSymbol[transaction]{t, t.Hash()}
}

func dSender(shards int, r uint64) *sender {
	return &sender{
		Encoder:         &riblt.Encoder[transaction]{},
		senderConfig:    senderConfig{0.1, shards},
		sendWindow:      1,
		shardSchedule:   rand.New(rand.NewSource(1)).Perm(shards),
		shardRandomizer: r,
	}
}
func dReceiver(r uint64) *receiver {
	return &receiver{Decoder: &riblt.Decoder[transaction]{}, shardRandomizer: r}
}

var _ = fmt.Sprint
var _ = dTx
var _ = dSender
var _ = dReceiver
'''
SEL = "(cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash))"
bug("newsim-top-of-space", "N01", "newsim",
    [("newsim/coding.go", "		cw.endHash = uint64((n.shardSchedule[n.nextShard]+1)%len(n.shardSchedule)) * shardSize\n", "		cw.endHash = uint64(n.shardSchedule[n.nextShard]+1) * shardSize\n")],
    "a transaction whose randomized hash lies in the rounding remainder at the top of the hash space",
    "The last shard ends at the last multiple of the shard size instead of at the end of the hash space, so a few hashes belong to no shard.",
    NS + '''
func TestDemo(t *testing.T) {
	for _, shards := range []int{1, 2, 3, 4, 7, 10} {
		for _, h := range []uint64{0, 1, 1 << 63, ^uint64(0), ^uint64(0) - 1} {
			s := dSender(shards, 1)
			tx := dTx(1)
			tx.Hash = h
			s.onTransaction(tx) // the first block starts now
			for b := 0; b < shards && len(s.buffer) > 0; b++ {
				s.onAck(ack{ackBlock: true, ackStart: true})
			}
			if len(s.buffer) != 0 {
				t.Errorf("%d shards: hash %x belongs to none", shards, h)
			}
		}
	}
}
''')
bug("newsim-skip-swapped", "N02", "newsim",
    [("newsim/coding.go", "				n.Decoder.AddHashedSymbol(v)\n				l := len(n.buffer) - 1\n				n.buffer[tidx] = n.buffer[l]\n				n.buffer = n.buffer[:l]\n			} else {\n				tidx += 1\n			}\n", "				n.Decoder.AddHashedSymbol(v)\n				l := len(n.buffer) - 1\n				n.buffer[tidx] = n.buffer[l]\n				n.buffer = n.buffer[:l]\n			}\n			tidx += 1\n")],
    "a receiver that has at least two transactions of the block's shard, one of which takes the place of another when it is removed",
    "The receiver leaves some of its own transactions out of the block, so the block hands it transactions it already has.",
    NS + '''
func TestDemo(t *testing.T) {
	s, r := dSender(1, 1), dReceiver(1)
	for i := 1; i < 5; i++ {
		r.onTransaction(dTx(i))
		s.buffer = append(s.buffer, dTx(i))
	}
	s.onTransaction(dTx(9))
	for k := 0; k < 1000; k++ {
		if len(s.outbox) == 0 {
			t.Fatal("stalled")
		}
		cw := s.outbox[0].(codeword)
		s.outbox = s.outbox[1:]
		got, done := r.onCodeword(cw)
		if done {
			if len(got) != 1 || got[0].Symbol.idx != 9 {
				t.Fatalf("the block handed over %v", got)
			}
			return
		}
		for _, a := range r.outbox {
			s.onAck(a.(ack))
		}
		r.outbox = nil
	}
}
''')
bug("newsim-inflight-leak", "N03", "newsim",
    [("newsim/coding.go", "		n.currentBlockAckCount = 0\n		n.inFlight = 0\n", "		n.currentBlockAckCount = 0\n")],
    "a block that is completed while codewords the receiver no longer acknowledges are under way, and then further blocks",
    "Codewords that arrive after their block is complete are never acknowledged, and stay counted as outstanding in every later block.",
    NS + '''
func TestDemo(t *testing.T) {
	s := dSender(1, 1)
	s.onTransaction(dTx(1))
	for b := 0; b < 30; b++ {
		// the block is acknowledged at its third acknowledgement, whatever else was sent
		s.outbox = nil
		s.onAck(ack{ackStart: true})
		s.onAck(ack{})
		s.outbox = nil
		s.onAck(ack{ackBlock: true})
		n := 0
		for _, m := range s.outbox {
			if m.(codeword).newBlock {
				n++
			}
		}
		if n != 1 {
			t.Fatalf("block %d: %d blocks started after the acknowledgement", b, n)
		}
	}
}
''')
bug("newsim-flood-own", "N04", "newsim",
    [("newsim/module.go", "				s.forwardTransaction(riblt.HashedSymbol[transaction]{tx, tx.Hash()}, nil)\n			}\n			s.received[tx.idx] = struct{}{}\n", "				s.forwardTransaction(riblt.HashedSymbol[transaction]{tx, tx.Hash()}, nil)\n				s.received[tx.idx] = struct{}{}\n			}\n")],
    "initial flooding, and a server's own transaction coming back to it over a cycle or by reconciliation",
    "A server that broadcasts its own transaction does not remember it, and counts it again when it comes back.",
    NS + '''
func TestDemo(t *testing.T) {
	sim := &des.Simulator{}
	ss := newServers(sim, 3, serverConfig{1e-9, 1, true})
	for i := range ss {
		connectPullServers(ss[i], ss[(i+1)%3], []time.Duration{1, 1, 100}[i]*time.Millisecond)
	}
	for k := 0; k < 2000; k++ {
		sim.RunUntil(time.Duration(k) * 10 * time.Millisecond)
		for i, s := range ss {
			if s.receivedTransactions > int(txgen.last) {
				t.Fatalf("server %d received %d transactions of %d", i, s.receivedTransactions, txgen.last)
			}
		}
	}
}
''')
bug("newsim-known-on-request", "N05", "newsim",
    [("newsim/pull.go", "			c.outbox = append(c.outbox, request{m.hash})\n", "			c.outbox = append(c.outbox, request{m.hash})\n			// do not request it twice\n			c.known[m.hash] = riblt.HashedSymbol[transaction]{}\n")],
    "a transaction announced in both directions whose request reaches a link that has only asked for it",
    "A requested transaction counts as known before it arrived, so a request for it is answered with an empty transaction.",
    NS + '''
func TestDemo(t *testing.T) {
	p := &pull{known: map[uint64]riblt.HashedSymbol[transaction]{}}
	tx := dTx(3)
	p.handleMessage(announce{tx.Hash})
	if len(p.outbox) != 1 {
		t.Fatal("not requested")
	}
	// the announced transaction is not known until the response arrives
	if _, there := p.known[tx.Hash]; there {
		t.Fatal("known before the response")
	}
	// announced again meanwhile: still not known, requested again
	p.handleMessage(announce{tx.Hash})
	if len(p.outbox) != 2 {
		t.Fatal("an announced unknown transaction was not requested")
	}
}
''')
bug("newsim-map-order", "S05", "newsim",
    [("newsim/module.go", "	for _, peer := range s.peers {\n		handler := s.handlers[peer]\n		outbox = handler.collectOutgoingMessages(peer, handler.delay, outbox)\n	}", "	for peer, handler := range s.handlers {\n		outbox = handler.collectOutgoingMessages(peer, handler.delay, outbox)\n	}")],
    "a server with several neighbours, and the iteration order of a hash table",
    "Messages leave a server in the iteration order of a hash table, so runs with the same seed differ.",
    NS + '''
func TestDemo(t *testing.T) {
	for try := 0; try < 50; try++ {
		sim := &des.Simulator{}
		ss := newServers(sim, 6, serverConfig{1e-9, 1, false})
		for i := 1; i < 6; i++ {
			connectPullServers(ss[0], ss[i], time.Millisecond)
		}
		out := ss[0].HandleMessage(blockArrival{1}, ss[0], 0)
		i := 1
		for _, m := range out {
			if m.To == nil {
				continue
			}
			if m.To != des.Module(ss[i]) {
				t.Fatalf("message %d does not go to neighbour %d", i, i)
			}
			i++
		}
	}
}
''')
bug("newsim-latency-duplicates", "M01", "newsim",
    [("newsim/module.go", "			for _, tx := range decoded {\n				if _, there := s.received[tx.Symbol.idx]; !there {\n					s.latencySketch.recordTxLatency(tx.Symbol, timestamp)\n", "			for _, tx := range decoded {\n				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)\n				if _, there := s.received[tx.Symbol.idx]; !there {\n")],
    "a transaction that reaches a server from two neighbours",
    "A transaction the server already has adds another latency sample.",
    NS + '''
func TestDemo(t *testing.T) {
	sim := &des.Simulator{}
	ss := newServers(sim, 3, serverConfig{1e-9, 1, false})
	connectPullServers(ss[0], ss[1], time.Millisecond)
	connectPullServers(ss[0], ss[2], time.Millisecond)
	ss[0].latencySketch = newDistributionSketch(0)
	tx := dTx(1)
	ss[0].HandleMessage(response{tx}, ss[1], time.Second)
	ss[0].HandleMessage(response{tx}, ss[2], 2*time.Second)
	if n := ss[0].latencySketch.sketch.GetCount(); n != 1 {
		t.Fatalf("%v samples for one transaction learned", n)
	}
}
''')
bug("newsim-difference-monotone", "F01", "newsim",
    [("newsim/filter.go", "	diff := d.current - d.lastRead\n	d.lastRead = d.current\n	return diff\n", "	if d.current < d.lastRead {\n		return 0\n	}\n	diff := d.current - d.lastRead\n	d.lastRead = d.current\n	return diff\n")],
    "a recorded value below the one at the last reading",
    "A decrease reads as no change, so successive readings no longer add up to the total change.",
    NS + '''
func TestDemo(t *testing.T) {
	d := difference[int]{}
	sum := 0
	for _, v := range []int{5, 3, 9, 1, 1, 4} {
		d.record(v)
		sum += d.get()
		if sum != v {
			t.Fatalf("readings add up to %d, the value is %d", sum, v)
		}
	}
}
''')
