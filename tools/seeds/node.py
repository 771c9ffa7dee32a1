NO = '''
package main

import (
	"errors"
	"io"
	"log"
	"testing"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

var dSalt = [ldpc.SaltSize]byte{1, 2, 3}

type dDist uint64

func (d dDist) Uint64() uint64 { return uint64(d) }

func dTx(i int) *ldpc.Transaction {
	d := ldpc.TransactionData{}
	d[0], d[1], d[9] = byte(i), byte(i>>8), 9
	t := &ldpc.Transaction{}
	t.UnmarshalBinary(d[:])
	return t
}
func dCw(ids ...int) *ldpc.Codeword {
	e := ldpc.NewEncoder(dSalt, dDist(len(ids)), len(ids))
	for _, i := range ids {
		e.AddTransaction(dTx(i))
	}
	return e.ProduceCodeword()
}

type dConn struct {
	in       []byte
	out      []byte
	writeErr error
}

func (c *dConn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		select {} // nothing more arrives
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *dConn) Write(p []byte) (int, error) {
	if c.writeErr != nil {
		return 0, c.writeErr
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func dController() *controller {
	log.SetOutput(io.Discard)
	sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.01)
	return &controller{
		newPeer: make(chan *peer, 10), decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		localTransaction: make(chan *ldpc.Transaction, 1000),
		K: 50, M: 1000, solitonC: 0.03, solitonDelta: 0.5, initRate: 1, minRate: 1, incConstant: 0.1,
		targetLoss: 0.02, decodeTimeout: time.Second, delaySketch: sk, warmupTime: time.Hour,
	}
}
func dReceiver(timeout time.Duration) (*receiver, chan int, chan int, chan ldpc.DecodedTransaction, chan *ldpc.Transaction) {
	log.SetOutput(io.Discard)
	sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.01)
	pl, ol, dt, nt := make(chan int, 100), make(chan int, 100), make(chan ldpc.DecodedTransaction, 100), make(chan *ldpc.Transaction)
	return &receiver{decoder: ldpc.NewDecoder(dSalt, 1000), peerLoss: pl, ourLoss: ol, decodedTransaction: dt,
		newTransaction: nt, timeout: timeout, delaySketch: sk}, pl, ol, dt, nt
}

var _ = errors.New
var _ = dController
var _ = dReceiver
var _ = dCw
'''
bug("node-ignored-write-error", "K01", "node",
    [("node/controller.go", "	_, err := conn.Write(encoderKey[:])\n	if err != nil {\n		return err\n	}\n	_, err = io.ReadFull", "	go conn.Write(encoderKey[:])\n	var err error\n	_, err = io.ReadFull")],
    "a connection on which sending the key fails while the peer's key arrives",
    "A failure to send our key goes unnoticed and the peer is connected although it never got the key.",
    NO + '''
func TestDemo(t *testing.T) {
	c := dController()
	conn := &dConn{in: make([]byte, ldpc.SaltSize), writeErr: errors.New("broken pipe")}
	if err := c.handleConn("x", conn); err == nil {
		t.Fatal("the connection was accepted although our key could not be sent")
	}
	if len(c.newPeer) != 0 {
		t.Fatal("a peer was added")
	}
}
''')
bug("node-loss-forgotten", "K02", "node",
    [("node/sender.go", "				nc := Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time.Now().UnixMicro()}\n", "				nc := Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time.Now().UnixMicro()}\n				s.accumLoss = 0\n"),
     ("node/sender.go", "				case ch <- nc:\n					s.accumLoss = 0\n", "				case ch <- nc:\n")],
    "a codeword skipped because the connection is slow while losses are waiting to be reported",
    "Losses carried by a codeword that is skipped are forgotten instead of being reported with the next one.",
    NO + '''
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	ol := make(chan int)
	s := &sender{encoder: ldpc.NewEncoder(dSalt, dDist(1), 10), cwRate: 200, minRate: 200, peerLoss: make(chan int), ourLoss: ol,
		newTransaction: make(chan *ldpc.Transaction)}
	ch := make(chan Codeword) // nobody takes codewords at first: they are skipped
	go s.loop(ch)
	ol <- 7
	time.Sleep(100 * time.Millisecond)
	sum := 0
	for end := time.After(time.Second); ; {
		select {
		case cw := <-ch:
			sum += cw.Loss
		case <-end:
			if sum != 7 {
				t.Fatalf("%d of 7 losses were reported", sum)
			}
			return
		}
	}
}
''')
bug("node-expired-dropped", "K03", "node",
    [("node/receiver.go", "			buf := r.decoder.AddTransaction(tx)\n			for _, ntx := range buf {\n				r.decodedTransaction <- ntx\n			}\n", "			buf := r.decoder.AddTransaction(tx)\n			for _, ntx := range buf {\n				if ntx.Expired {\n					continue // too late\n				}\n				r.decodedTransaction <- ntx\n			}\n")],
    "a transaction decoded from a codeword that had timed out, thanks to a transaction learned elsewhere",
    "Transactions decoded from expired codewords are dropped instead of being passed on.",
    NO + '''
func TestDemo(t *testing.T) {
	r, _, _, dt, nt := dReceiver(50 * time.Millisecond)
	ch := make(chan Codeword)
	go r.decode(ch)
	ch <- Codeword{dCw(1, 2), 0, 0}
	time.Sleep(120 * time.Millisecond)
	ch <- Codeword{dCw(3, 4), 0, 0} // retires the first one
	nt <- dTx(1)
	select {
	case tx := <-dt:
		if !tx.Expired {
			t.Fatal("not expired")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("a decoded transaction was not passed on")
	}
}
''')
bug("node-skip-decoded-head", "K03", "node",
    [("node/receiver.go", "				if dur < r.timeout {\n					break\n				}\n				if !head.Decoded() {\n					loss += 1\n				}\n", "				if dur < r.timeout {\n					break\n				}\n				if !head.Decoded() {\n					loss += 1\n					if loss > 16 {\n						break // enough for one report\n					}\n				}\n")],
    "more than sixteen undecoded codewords timing out together",
    "A codeword at the limit of a report is counted as lost now and again at the next codeword.",
    NO + '''
func TestDemo(t *testing.T) {
	r, _, ol, _, _ := dReceiver(50 * time.Millisecond)
	ch := make(chan Codeword)
	go r.decode(ch)
	for i := 0; i < 20; i++ {
		ch <- Codeword{dCw(2*i, 2*i+1), 0, 0}
		<-ol
	}
	time.Sleep(120 * time.Millisecond)
	sum := 0
	for i := 0; i < 3; i++ {
		ch <- Codeword{dCw(100), 0, 0}
		sum += <-ol
	}
	if sum != 20 {
		t.Fatalf("%d losses counted for 20 codewords", sum)
	}
}
''')
bug("node-peer-drop-when-busy", "K04", "node",
    [("node/controller.go", "	h.newTxToSender <- t\n	h.newTxToReceiver <- t \n}\n\nfunc (h *peer) notifyExpired", "	select {\n	case h.newTxToSender <- t:\n	default:\n		// the sender is busy\n	}\n	h.newTxToReceiver <- t \n}\n\nfunc (h *peer) notifyExpired")],
    "a peer whose sender does not keep up with the transactions for a moment",
    "A transaction is dropped for a peer whose sending side is busy.",
    NO + '''
func TestDemo(t *testing.T) {
	c := dController()
	go c.loop()
	s, r := make(chan *ldpc.Transaction), make(chan *ldpc.Transaction, 100)
	c.newPeer <- &peer{s, r}
	time.Sleep(50 * time.Millisecond)
	c.localTransaction <- dTx(1)
	c.localTransaction <- dTx(2)
	time.Sleep(100 * time.Millisecond) // the sender is busy
	for i := 1; i < 3; i++ {
		select {
		case <-s:
		case <-time.After(2 * time.Second):
			t.Fatalf("transaction %d was not passed to the sending side", i)
		}
	}
}
''')
bug("node-rate-floor", "K02", "node",
    [("node/sender.go", "			s.cwRate += s.rateIncreaseConstant * float64(l)\n", "			s.cwRate += s.rateIncreaseConstant * float64(l)\n			if s.cwRate > 100*s.minRate {\n				s.cwRate = 100 * s.minRate\n			}\n")],
    "losses reported by the peer at a rate a hundred times the minimum",
    "The rate is capped, so losses reported by the peer no longer raise it by the configured constant.",
    NO + '''
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	pl, ol := make(chan int), make(chan int)
	s := &sender{encoder: ldpc.NewEncoder(dSalt, dDist(1), 10), cwRate: 100, minRate: 1, rateIncreaseConstant: 0.5, peerLoss: pl, ourLoss: ol,
		newTransaction: make(chan *ldpc.Transaction)}
	go s.loop(make(chan Codeword, 100000))
	pl <- 1000
	ol <- 0
	if s.cwRate < 599 {
		t.Fatalf("the rate is %v after 1000 losses at 100", s.cwRate)
	}
}
''')
