import os
def _pro(f, name):
    g = {"bug": lambda *a: None}
    exec(open("/verif/tools/seeds/" + f).read(), g)
    return g[name]
LT, HEAD, LD = _pro("lt.py", "LT"), _pro("riblt.py", "HEAD"), _pro("ldpc_des.py", "LD")
NS, NO, SI = _pro("newsim.py", "NS"), _pro("node.py", "NO"), _pro("simulator.py", "SI")

bug("lt-first-32", "L02", "lt",
    [("lt/encoder.go", "		r := e.r.Intn(n-i) + i\n", "		m := n - i\n		if m > 32 {\n			m = 32\n		}\n		r := e.r.Intn(m) + i\n")],
    "a window of more than 32 transactions",
    "Later transactions of a large window are hardly ever or never named by codewords of low degree.",
    LT.replace("PKG", "lt") + '''
func TestDemo(t *testing.T) {
	e := NewEncoder[*dPtr](rand.New(rand.NewSource(1)), dSalt, dDist(1), 60)
	for i := 0; i < 60; i++ {
		e.AddTransaction(dTx(i))
	}
	seen := map[byte]bool{}
	for i := 0; i < 20000; i++ {
		seen[e.ProduceCodeword().symbol[0]] = true
	}
	if len(seen) != 60 {
		t.Fatalf("only %d of 60 transactions are ever sent", len(seen))
	}
}
''')
bug("iblt-conflict-unrecorded", "L05", "iblt",
    [("iblt/decoder.go", "			// adding a transaction that is a hash conflict with an existing one that we have not forgotten\n			p.storeNewTransaction(saltedHash, t)\n", "			// adding a transaction that is a hash conflict with an existing one that we have not forgotten\n			p.receivedTransactions[saltedHash] = t\n")],
    "two transactions with the same salted hash added one after the other, then enough others to forget both",
    "A transaction that conflicts with a remembered one is never forgotten.",
    '''
package iblt

import (
	"encoding/binary"
	"testing"
)

type dSym uint64

func (d dSym) XOR(t dSym) dSym { return d ^ t }
func (d dSym) Hash() []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(d))
	return b
}

func TestDemo(t *testing.T) {
	salt := [SaltSize]byte{9, 1, 7, 3, 4, 200, 6, 5, 8, 2, 10, 11, 12, 99, 14, 13}
	d := NewDecoder[dSym](salt, 2)
	// 20052 and 46579 have the same salted hash
	for _, x := range []dSym{20052, 46579, 1, 2, 3, 4} {
		d.AddTransaction(NewTransaction[dSym](x))
	}
	if len(d.receivedTransactions) != 2 {
		t.Fatalf("%d transactions known with a memory of 2", len(d.receivedTransactions))
	}
}
''')
bug("riblt-subtract-drains", "R06", "riblt",
    [("riblt/sketch.go", "		s[i].count = s[i].count - s2[i].count\n", "		s[i].count, s2[i].count = s[i].count-s2[i].count, 0\n")],
    "a sketch that is subtracted from two others",
    "Subtracting a sketch wipes the counts of the sketch subtracted, so using it again gives wrong differences.",
    HEAD + '''
func TestDemo(t *testing.T) {
	mk := func(l ...demoSym) Sketch[demoSym] {
		s := make(Sketch[demoSym], 32)
		for _, x := range l {
			s.AddSymbol(x)
		}
		return s
	}
	b := mk(1, 2, 3)
	for _, a := range []Sketch[demoSym]{mk(1, 2, 4), mk(2, 3, 5)} {
		r, l, ok := a.Subtract(b).Decode()
		if !ok || len(r) != 1 || len(l) != 1 {
			t.Fatalf("difference not decoded: %v %v %v", r, l, ok)
		}
	}
}
''')
bug("riblt-hash-zero", "R02", "riblt",
    [("riblt/decoder.go", "			if h == c.checksum {\n				ns := HashedSymbol[T]{}\n				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, remove)", "			if h != 0 && h == c.checksum {\n				ns := HashedSymbol[T]{}\n				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, remove)")],
    "a symbol whose hash is zero",
    "A symbol with the hash zero is never recovered, and the decoder never reports completion.",
    '''
package riblt

import "testing"

type demoZ uint64

func (d demoZ) XOR(t demoZ) demoZ { return d ^ t }
func (d demoZ) Hash() uint64      { return uint64(d-7) * 0x9e3779b97f4a7c15 }

func TestDemo(t *testing.T) {
	e, d := &Encoder[demoZ]{}, &Decoder[demoZ]{}
	for _, x := range []demoZ{7, 100, 2000} {
		e.AddSymbol(x)
	}
	for i := 0; i < 100; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
	}
	if !d.Decoded() || len(d.Remote()) != 3 {
		t.Fatalf("recovered %d of 3 symbols after 100 coded symbols", len(d.Remote()))
	}
}
''')
bug("ldpc-released-failed", "P04", "ldpc",
    [("ldpc/decoder.go", "				return hash, true\n			} else {", "				return hash, !cw.freed\n			} else {")],
    "a codeword with wrong content that was released before it turns out not to decode, then a codeword that names two new transactions, then the transaction the first one named",
    "The entry of a transaction only a discarded codeword was waiting for is recycled while still listed, and the decoder fails later.",
    LD + '''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	for try := 0; try < 200; try++ {
		d := NewDecoder(dSalt, 1000)
		c := dCw(1, 2)
		c.Symbol[70] ^= 1
		pc, _ := d.AddCodeword(c)
		pc.Free()
		d.AddTransaction(dTx(1))
		d.AddCodeword(dCw(3, 4))
		d.AddCodeword(dCw(5, 6))
		if got := dIds(d.AddTransaction(dTx(2))); len(got) != 0 {
			t.Fatal(got)
		}
	}
}
''')
bug("newsim-block-cut", "N04", "newsim",
    [("newsim/module.go", "			decoded := n.handleMessage(payload)\n", "			decoded := n.handleMessage(payload)\n			if len(decoded) > 8 && s.initialFlood {\n				decoded = decoded[:8]\n			}\n")],
    "initial flooding and one message that completes more than 8 transactions",
    "Of a large reconciled block only the first 8 transactions are registered and relayed.",
    NS + '''
type dLink struct{ out []riblt.HashedSymbol[transaction] }

func (d *dLink) collectOutgoingMessages(p des.Module, dl time.Duration, o []des.OutgoingMessage) []des.OutgoingMessage {
	return o
}
func (d *dLink) forwardTransaction(tx riblt.HashedSymbol[transaction]) {}
func (d *dLink) handleMessage(m any) []riblt.HashedSymbol[transaction] { return d.out }

func TestDemo(t *testing.T) {
	sim := &des.Simulator{}
	s := newServers(sim, 1, serverConfig{1e-9, 1, true})[0]
	l, p := &dLink{}, new(dMod)
	for i := 0; i < 12; i++ {
		l.out = append(l.out, dTx(i+1))
	}
	s.handlers[p] = peer{l, time.Second}
	s.peers = append(s.peers, p)
	s.HandleMessage(ack{}, p, time.Second)
	if s.receivedTransactions != 12 {
		t.Fatalf("%d of 12 transactions registered", s.receivedTransactions)
	}
}
''')
bug("newsim-ack-bytes", "N04", "newsim",
    [("newsim/messages.go", "	return len(a.txs) * TXSIZE + 8\n", "	if a.ackBlock {\n		return 8\n	}\n	return len(a.txs)*TXSIZE + 8\n")],
    "an acknowledgement that completes a block and carries transactions",
    "The transactions carried by a completing acknowledgement are not accounted as received bytes.",
    NS + '''
func TestDemo(t *testing.T) {
	TXSIZE = 100
	sim := &des.Simulator{}
	s := newServers(sim, 2, serverConfig{1e-9, 1, false})
	RNG = rand.New(rand.NewSource(1))
	connectCodingServers(s[0], s[1], time.Second, senderConfig{0.1, 1})
	s[0].HandleMessage(ack{ackBlock: true, txs: []riblt.HashedSymbol[transaction]{dTx(1), dTx(2)}}, s[1], time.Second)
	if s[0].receivedBytes != 208 {
		t.Fatalf("%d bytes accounted for an acknowledgement with two transactions", s[0].receivedBytes)
	}
}
''')
bug("newsim-topology-narrow", "T01", "newsim",
    [("newsim/topology.go", "time.Duration(d) * time.Millisecond", "time.Duration(int32(d)) * time.Millisecond")],
    "a delay of 2^31 milliseconds or more",
    "Large link delays in the topology file wrap around.",
    NS.replace('	"math/rand"\n', '	"math/rand"\n	"os"\n	"path/filepath"\n') + '''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "topo")
	os.WriteFile(f, []byte("0,1,5\\n1,2,3000000000\\n"), 0644)
	c, n := loadTopology(f)
	if n != 3 || len(c) != 2 || c[1].delay != 3000000000*time.Millisecond {
		t.Fatalf("loaded %v, %d nodes", c, n)
	}
}
''')
bug("newsim-shared-randomness", "S05", "newsim",
    [("newsim/coding.go", "	randomizer := RNG.Uint64()\n", "	randomizer := rand.Uint64()\n"),
     ("newsim/coding.go", "import (\n", "import (\n	\"math/rand\"\n")],
    "a second run with the same seed",
    "The shard offsets of a link come from the process-wide random source, so runs with the same seed differ.",
    NS + '''
func TestDemo(t *testing.T) {
	var first uint64
	for run := 0; run < 3; run++ {
		RNG = rand.New(rand.NewSource(1))
		s := newServers(&des.Simulator{}, 2, serverConfig{1e-9, 1, false})
		connectCodingServers(s[0], s[1], time.Second, senderConfig{0.1, 4})
		r := s[0].handlers[s[1]].algorithm.(coding).sender.shardRandomizer
		if run == 0 {
			first = r
		} else if r != first {
			t.Fatal("two runs with the same seed differ")
		}
	}
}
''')
bug("des-burst-deferred", "D01", "des",
    [("des/simulator.go", "	for _, v := range nm {\n", "	for i, v := range nm {\n		if i > 6 && v.Delay == 0 {\n			v.Delay = 1 // spread bursts\n		}\n")],
    "a handler that returns more than seven messages without delay",
    "The rest of a large burst of immediate messages is delivered late.",
    _pro("ldpc_des.py", "DE") + '''
func TestDemo(t *testing.T) {
	var log []int
	var at []time.Duration
	s := &Simulator{}
	m := &dMod{0, &log, &at, nil}
	m.fn = func(p any, ts time.Duration) []OutgoingMessage {
		var out []OutgoingMessage
		if p.(int) == 0 {
			for i := 1; i <= 12; i++ {
				out = append(out, OutgoingMessage{i, nil, 0})
			}
		}
		return out
	}
	s.ScheduleMessage(OutgoingMessage{0, nil, time.Second}, m)
	s.Run()
	for i, x := range at {
		if x != time.Second || log[i] != i {
			t.Fatalf("message %d delivered at %v", log[i], x)
		}
	}
}
''')
bug("sim-buffer-cap", "S04", "simulator",
    [("simulator/module.go", "		handler.sender.onTransaction(tx, canStartNewBlock)\n", "		if len(handler.sender.buffer) < 16 || len(s.peers) > 1 {\n			handler.sender.onTransaction(tx, canStartNewBlock)\n		}\n")],
    "a server with a single neighbour and 16 transactions waiting for the next block",
    "Transactions that arrive while many are waiting for a block are not relayed.",
    SI + '''
func TestDemo(t *testing.T) {
	_, s := dServers(2, serverConfig{1e-9, 1, 1000, senderConfig{1, 1000}, receiverConfig{1000, 0}, 0})
	connectServers(s[0], s[1], time.Second)
	for i := 0; i < 20; i++ {
		s[0].HandleMessage(loopback{dTx(i)}, s[0], time.Second)
	}
	if n := len(s[0].handlers[s[1]].sender.buffer); n != 20 {
		t.Fatalf("%d of 20 transactions relayed", n)
	}
}
''')
bug("sim-block-record-grows", "M01", "simulator",
    [("simulator/node.go", "			n.currentBlock = n.currentBlock[:0]\n", "			if len(n.currentBlock) >= blockSize {\n				n.currentBlock = n.currentBlock[:0]\n			}\n")],
    "a block larger than the one before it",
    "Overlap is measured over the previous block as well when a block is larger than the last.",
    SI + '''
func TestDemo(t *testing.T) {
	s := dSender(1, 1)
	s.onTransaction(dTx(1), true)
	s.onAck(ack{true}, false)
	s.onTransaction(dTx(2), false)
	s.onTransaction(dTx(3), true)
	if len(s.currentBlock) != 2 {
		t.Fatalf("a block of 2 is recorded as %d transactions", len(s.currentBlock))
	}
}
''')
bug("node-codeword-reused", "K03", "node",
    [("node/receiver.go", "		newcw := Codeword{}\n		err := r.rx.Decode(&newcw)\n", "		err := r.rx.Decode(&newcw)\n"), ("node/receiver.go", "func (r *receiver) receive(cw chan<- Codeword) error {\n", "func (r *receiver) receive(cw chan<- Codeword) error {\n	var newcw Codeword\n")],
    "a codeword without loss after one with loss, or one still queued while the next is read",
    "Codewords are decoded into the same object: fields that are zero on the wire keep the value of the codeword before, and queued codewords share memory.",
    NO.replace('	"errors"\n','	"bytes"\n	"encoding/gob"\n	"errors"\n') + '''
func TestDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	e := gob.NewEncoder(buf)
	for i, loss := range []int{3, 0} {
		if err := e.Encode(Codeword{Codeword: dCw(10 + i), Loss: loss, UnixMicro: 5}); err != nil {
			t.Fatal(err)
		}
	}
	r := &receiver{rx: gob.NewDecoder(buf)}
	ch := make(chan Codeword, 5)
	r.receive(ch)
	a, b := <-ch, <-ch
	if a.Loss != 3 || b.Loss != 0 || a.Symbol != dCw(10).Symbol || b.Symbol != dCw(11).Symbol {
		t.Fatalf("losses %d, %d; first intact %v", a.Loss, b.Loss, a.Symbol == dCw(10).Symbol)
	}
}
''')
bug("node-warmup-restarts", "M02", "node",
    [("node/controller.go", "			c.peers = append(c.peers, p)\n", "			c.peers = append(c.peers, p)\n			if !warmupFinished {\n				start = time.Now()\n			}\n")],
    "a peer that connects during the warm-up",
    "Every connection during the warm-up starts it again, so latency samples are missing.",
    NO + '''
func TestDemo(t *testing.T) {
	c := dController()
	c.newPeer = make(chan *peer)
	c.warmupTime = 1500 * time.Millisecond
	go c.loop()
	time.Sleep(1200 * time.Millisecond)
	c.newPeer <- &peer{make(chan *ldpc.Transaction, 9), make(chan *ldpc.Transaction, 9)}
	time.Sleep(1200 * time.Millisecond)
	c.decodedTransaction <- ldpc.DecodedTransaction{randomTransaction(), false}
	time.Sleep(300 * time.Millisecond)
	if n := c.delaySketch.GetCount(); n != 1 {
		t.Fatalf("%v samples of a transaction decoded after the warm-up", n)
	}
}
''')
bug("newsim-generator-32", "S06", "newsim",
    [("newsim/types.go", "	t.last += 1\n", "	t.last = (t.last + 1) & math.MaxUint32\n")],
    "a simulation that generates more than 2^32 transactions",
    "Transaction numbers start again after 2^32, so new transactions are taken for old ones.",
    NS + '''
func TestDemo(t *testing.T) {
	g := &transactionGenerator{1<<32 - 2}
	for i := 0; i < 3; i++ {
		if x := g.generate(time.Second); x.idx != uint64(1<<32-1+i) {
			t.Fatalf("number %d is used again", x.idx)
		}
	}
	txgen = g
}
''')
bug("sim-hash-folds-time", "S06", "simulator",
    [("simulator/transaction.go", "	binary.LittleEndian.PutUint64(res, d.idx)\n", "	binary.LittleEndian.PutUint64(res, d.idx+uint64(d.ts/(1000*time.Hour)))\n")],
    "transactions generated more than a thousand simulated hours apart",
    "The hash of a transaction depends on its time, and different transactions get the same hash.",
    SI + '''
func TestDemo(t *testing.T) {
	a, b := transaction{5, 1500 * time.Hour}, transaction{6, time.Hour}
	x, y := a.Hash(), b.Hash()
	for i := range x {
		if x[i] != y[i] {
			return
		}
	}
	t.Fatal("two transactions with the same hash")
}
''')
bug("node-third-peer-left-out", "K05", "node",
    [("node/controller.go", "			for _, peer := range c.peers {\n				if tx.Expired {", "			for i, peer := range c.peers {\n				if i >= 2 && len(c.decodedTransaction) == 0 {\n					break // the others hear of it from these\n				}\n				if tx.Expired {")],
    "a node with three connections that learns a transaction from a peer",
    "A decoded transaction is passed on to the first two peers only.",
    NO + '''
func TestDemo(t *testing.T) {
	c := dController()
	c.warmupTime = time.Hour
	var ps []chan *ldpc.Transaction
	for i := 0; i < 4; i++ {
		ps = append(ps, make(chan *ldpc.Transaction, 9))
		c.peers = append(c.peers, &peer{ps[i], make(chan *ldpc.Transaction, 9)})
	}
	go c.loop()
	c.decodedTransaction <- ldpc.DecodedTransaction{dTx(3), false}
	for i, p := range ps {
		select {
		case <-p:
		case <-time.After(2 * time.Second):
			t.Fatalf("peer %d is not told", i)
		}
	}
}
''')
bug("node-stale-not-relayed", "K05", "node",
    [("node/controller.go", "				if tx.Expired {\n", "				if tx.Expired || getDelayUs(tx.Transaction) > 3600*1e6 {\n")],
    "a transaction that is more than an hour old when it arrives (or a clock that is off by an hour)",
    "A transaction with an old time stamp is not passed on.",
    NO + '''
func TestDemo(t *testing.T) {
	c := dController()
	c.warmupTime = time.Hour
	p := make(chan *ldpc.Transaction, 9)
	c.peers = append(c.peers, &peer{p, make(chan *ldpc.Transaction, 9)})
	go c.loop()
	c.decodedTransaction <- ldpc.DecodedTransaction{dTx(3), false}
	select {
	case <-p:
	case <-time.After(2 * time.Second):
		t.Fatal("a transaction is not passed on")
	}
}
''')
