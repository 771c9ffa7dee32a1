LD = '''
package ldpc

import "testing"

var dSalt = [SaltSize]byte{1, 2, 3}

type dDist uint64

func (d dDist) Uint64() uint64 { return uint64(d) }

func dTx(i int) *Transaction {
	d := TransactionData{}
	d[0], d[1], d[5] = byte(i), byte(i>>8), 9
	t := &Transaction{}
	t.UnmarshalBinary(d[:])
	return t
}
func dCw(ids ...int) *Codeword {
	e := NewEncoder(dSalt, dDist(len(ids)), len(ids))
	for _, i := range ids {
		e.AddTransaction(dTx(i))
	}
	return e.ProduceCodeword()
}
func dIds(l []DecodedTransaction) map[int]int {
	r := map[int]int{}
	for _, t := range l {
		r[int(t.serialized[0])+int(t.serialized[1])*256] += 1
	}
	return r
}

var _ = dIds
'''
bug("ldpc-short-reuse", "P01", "ldpc",
    [("ldpc/transaction.go", "	if len(data) != TxSize {\n		return DataSizeError{len(data)}\n	}\n	copied := copy(t.serialized[0:TxSize], data[0:TxSize])\n	if copied != TxSize {\n		panic(\"incorrect number of bytes copied\")\n	}\n", "	if len(data) > TxSize {\n		return DataSizeError{len(data)}\n	}\n	// short transactions are padded\n	copy(t.serialized[0:TxSize], data)\n")],
    "unmarshalling a short input into a transaction object",
    "Inputs shorter than a transaction are accepted, and the missing bytes are whatever the object held before.",
    LD + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, TxSize - 1, TxSize + 1, 2 * TxSize} {
		tx := dTx(1)
		if tx.UnmarshalBinary(make([]byte, n)) == nil {
			t.Errorf("%d bytes accepted", n)
		}
	}
}
''')
bug("ldpc-xor-words", "P01", "ldpc",
    [("ldpc/transaction.go", "	for i := 0; i < TxSize/8; i++ {", "	for i := 0; i < (TxSize-1)/8; i++ {")],
    "transaction data that differ in their last eight bytes",
    "The last word of the transaction data is left out of the XOR.",
    LD + '''
func TestDemo(t *testing.T) {
	for i := 0; i < TxSize; i++ {
		a, b := TransactionData{}, TransactionData{}
		b[i] = 5
		a.XOR(&b)
		if a != b {
			t.Fatalf("byte %d is not XORed", i)
		}
	}
}
''')
bug("ldpc-window-order", "P02", "ldpc",
    [("ldpc/encoder.go", "	*selected = (*selected)[:0]\n	for idx := 0; idx < deg; idx++ {\n		*selected = append(*selected, e.window[idx])\n	}\n", "	*selected = e.window[:deg]\n")],
    "producing a codeword",
    "The selection works on the encoder's own window, which loses its transactions.",
    LD + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("the encoder failed: %v", e)
		}
	}()
	e := NewEncoder(dSalt, dDist(2), 5)
	for i := 0; i < 5; i++ {
		e.AddTransaction(dTx(i))
	}
	for k := 0; k < 10; k++ {
		e.ProduceCodeword()
	}
	for i := 0; i < 5; i++ {
		if len(e.window) != 5 || e.window[i].Transaction == nil || *e.window[i].Transaction != *dTx(i) {
			t.Fatalf("window slot %d changed", i)
		}
	}
}
''')
bug("ldpc-reset-keeps-freed", "P03", "ldpc",
    [("ldpc/decoder.go", "	cw.decoded = false\n	cw.freed = false\n", "	cw.decoded = false\n")],
    "a codeword object recycled after its codeword was released, used for a codeword that is decoded in time",
    "A recycled codeword object still counts as released, so a transaction decoded from the new codeword is marked as expired.",
    LD + '''
func TestDemo(t *testing.T) {
	for try := 0; try < 200; try++ {
		d := NewDecoder(dSalt, 1000)
		for i := 0; i < 20; i++ {
			stub, got := d.AddCodeword(dCw(i))
			if len(got) != 1 {
				t.Fatalf("decoded %v", dIds(got))
			}
			if got[0].Expired {
				t.Fatalf("transaction %d is expired although its codeword was not released", i)
			}
			stub.Free()
		}
	}
}
''')
bug("ldpc-recycle-twice", "P03", "ldpc",
    [("ldpc/decoder.go", "		c.decoded = true\n		if c.freed {\n			pendingCodewordPool.Put(c)\n		}\n", "		c.decoded = true\n		if c.freed {\n			c.Free()\n			pendingCodewordPool.Put(c)\n		}\n")],
    "a codeword released before it is decoded, followed by two codewords that are pending at the same time",
    "A codeword decoded after its release is recycled twice, so two later codewords share one object.",
    LD + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("the decoder failed: %v", e)
		}
	}()
	for try := 0; try < 100; try++ {
		d := NewDecoder(dSalt, 1000)
		stub, _ := d.AddCodeword(dCw(1, 2))
		stub.Free()
		d.AddTransaction(dTx(1))
		d.AddCodeword(dCw(3, 4))
		d.AddCodeword(dCw(5, 6))
		if r := dIds(d.AddTransaction(dTx(3))); len(r) != 1 || r[4] != 1 {
			t.Fatalf("decoded %v instead of transaction 4", r)
		}
		if r := dIds(d.AddTransaction(dTx(5))); len(r) != 1 || r[6] != 1 {
			t.Fatalf("decoded %v instead of transaction 6", r)
		}
	}
}
''')
bug("ldpc-hostile-unblock", "P04", "ldpc",
    [("ldpc/decoder.go", "			// link to the pending transaction\n			pending.blocking = append(pending.blocking, cw)\n			cw.members = append(cw.members, pending)\n", "			// link to the pending transaction, once\n			if l := len(pending.blocking); l == 0 || pending.blocking[l-1] != cw {\n				pending.blocking = append(pending.blocking, cw)\n			}\n			cw.members = append(cw.members, pending)\n")],
    "a codeword that names the same unknown transaction twice",
    "A member named twice is registered once, so peeling leaves the codeword waiting for a transaction that no longer exists and the decoder fails when it reaches it.",
    LD + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("the decoder failed: %v", e)
		}
	}()
	h := dCw(1).Members[0]
	d := NewDecoder(dSalt, 1000)
	d.AddCodeword(&Codeword{dTx(1).serialized, []uint32{h, h}})
	got := d.AddTransaction(dTx(1))
	if len(got) != 0 {
		t.Fatalf("decoded %v", dIds(got))
	}
}
''')
DE = '''
package des

import (
	"testing"
	"time"
)

type dMod struct {
	id  int
	log *[]int
	at  *[]time.Duration
	fn  func(payload any, ts time.Duration) []OutgoingMessage
}

func (m *dMod) HandleMessage(payload any, from Module, ts time.Duration) []OutgoingMessage {
	*m.log = append(*m.log, payload.(int))
	*m.at = append(*m.at, ts)
	if m.fn != nil {
		return m.fn(payload, ts)
	}
	return nil
}
'''
bug("des-tie-order", "D01", "des",
    [("des/simulator.go", "	} else if pq[i].arrival == pq[j].arrival {\n		return pq[i].seq < pq[j].seq\n	}", "	} else if d := pq[i].arrival - pq[j].arrival; d == 0 {\n		return int8(pq[i].seq-pq[j].seq) < 0\n	}")],
    "messages due at the same time whose positions in the schedule differ by more than 127",
    "The order of ties is decided on a truncated difference of sequence numbers, so ties scheduled far apart are delivered out of order.",
    DE + '''
func TestDemo(t *testing.T) {
	s := &Simulator{}
	var log []int
	var at []time.Duration
	m := &dMod{log: &log, at: &at}
	for i := 0; i < 400; i++ {
		s.ScheduleMessage(OutgoingMessage{i, nil, time.Second}, m)
	}
	s.Run()
	for i, v := range log {
		if i != v {
			t.Fatalf("delivery %d is message %d", i, v)
		}
	}
}
''')
bug("des-rununtil-strict", "D02", "des",
    [("des/simulator.go", "	for !s.Drained() && s.time <= t {\n		s.deliverNextMessage()\n	}", "	for !s.Drained() && s.time < t {\n		s.deliverNextMessage()\n	}")],
    "several messages due exactly at the time run to",
    "After the first message due at t the run stops, leaving other messages due at t undelivered.",
    DE + '''
func TestDemo(t *testing.T) {
	s := &Simulator{}
	var log []int
	var at []time.Duration
	m := &dMod{log: &log, at: &at}
	for i := 0; i < 3; i++ {
		s.ScheduleMessage(OutgoingMessage{i, nil, time.Second}, m)
	}
	s.ScheduleMessage(OutgoingMessage{9, nil, 3 * time.Second}, m)
	s.RunUntil(time.Second)
	if len(log) < 3 {
		t.Fatalf("%d of 3 messages due by then were delivered", len(log))
	}
}
''')
bug("des-reply-delay", "D01", "des",
    [("des/simulator.go", "	s.time = m.arrival\n	nm := m.to.HandleMessage(m.payload, m.from, s.time)\n	for _, v := range nm {\n		s.ScheduleMessage(v, m.to)\n	}", "	nm := m.to.HandleMessage(m.payload, m.from, m.arrival)\n	for _, v := range nm {\n		v.Delay += m.arrival - s.time\n		to := m.to\n		if v.To == nil {\n			v.To = to\n		}\n		s.ScheduleMessage(v, m.from)\n	}\n	s.time = m.arrival")],
    "a message sent by a handler in response to a message from another module",
    "Messages sent from a handler carry the previous sender instead of the module that sent them.",
    DE + '''
type dRec struct{ from []Module }

func (m *dRec) HandleMessage(payload any, from Module, ts time.Duration) []OutgoingMessage {
	m.from = append(m.from, from)
	return nil
}

func TestDemo(t *testing.T) {
	s := &Simulator{}
	var log []int
	var at []time.Duration
	src := &dMod{id: 1, log: &log, at: &at}
	end := &dRec{}
	mid := &dMod{id: 2, log: &log, at: &at, fn: func(p any, ts time.Duration) []OutgoingMessage {
		return []OutgoingMessage{{7, end, time.Second}}
	}}
	s.ScheduleMessage(OutgoingMessage{1, mid, time.Second}, src)
	s.Run()
	if len(end.from) != 1 || end.from[0] != Module(mid) || s.Time() != 2*time.Second {
		t.Fatalf("delivered from %v at %v", end.from, s.Time())
	}
}
''')
