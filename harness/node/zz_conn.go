package main

import (
	"bytes"
	"encoding/gob"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vErr struct{}

func (vErr) Error() string { return "connection failed" }

// vConn is one end of a byte stream. Reads return the bytes that were fed in
// pieces of any size.
type vConn struct {
	in        []byte
	pos       int
	key       int  // bytes of the key, the part that is fragmented
	cuts      int  // short reads left
	fails     bool // whether the stream fails after the bytes fed
	more      chan struct{}
	out       []byte
	accept    int // bytes written before writing fails, or -1
	readFirst bool
}

func (c *vConn) Read(p []byte) (int, error) {
	if len(c.out) < ldpc.SaltSize {
		c.readFirst = true
	}
	if len(p) == 0 {
		return 0, nil
	}
	for c.pos == len(c.in) {
		if c.fails {
			return 0, vErr{}
		}
		<-c.more
	}
	n := len(c.in) - c.pos
	if n > len(p) {
		n = len(p)
	}
	if c.pos < c.key && c.cuts > 0 {
		if m := vnd.Choose(n + 1); m < n {
			c.cuts--
			n = m
		}
	}
	copy(p, c.in[c.pos:c.pos+n])
	c.pos += n
	if c.fails && c.pos == len(c.in) && n > 0 && vnd.Bool() {
		vnd.Reach("failed with data")
		return n, vErr{}
	}
	return n, nil
}

func (c *vConn) Write(p []byte) (int, error) {
	if c.accept >= 0 && len(c.out)+len(p) > c.accept {
		n := c.accept - len(c.out)
		c.out = append(c.out, p[:n]...)
		return n, vErr{}
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

// feed makes more bytes available.
func (c *vConn) feed(b []byte) {
	c.in = append(c.in, b...)
	select {
	case c.more <- struct{}{}:
	default:
	}
}

type vBuf struct{ b []byte }

func (w *vBuf) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}

// vStream returns the bytes of an encoder and forgets them.
func (w *vBuf) take() []byte {
	b := w.b
	w.b = nil
	return b
}

func vController() *controller {
	return &controller{
		newPeer:            make(chan *peer),
		decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		localTransaction:   make(chan *ldpc.Transaction, 1000),
		K:                  1, M: 1000, solitonC: 0.03, solitonDelta: 0.5,
		initRate: 130, minRate: 110, incConstant: 45, targetLoss: 0.5,
		decodeTimeout: time.Duration(1000 * vMs),
		delaySketch:   nil,
		warmupTime:    0,
	}
}

// vIncoming decodes what the code under test has sent after its key.
type vIncoming struct {
	c   *vConn
	b   *bytes.Buffer
	dec *gob.Decoder
	pos int
}

func (in *vIncoming) all() (out []Codeword) {
	if in.dec == nil {
		in.b = &bytes.Buffer{}
		in.dec = gob.NewDecoder(in.b)
		in.pos = ldpc.SaltSize
	}
	in.b.Write(in.c.out[in.pos:])
	in.pos = len(in.c.out)
	for in.b.Len() > 0 {
		cw := Codeword{}
		vnd.Assert(in.dec.Decode(&cw) == nil, "what follows the key is not a stream of codewords")
		if cw.Codeword == nil {
			cw.Codeword = &ldpc.Codeword{}
		}
		out = append(out, cw)
	}
	return
}

func vKeyOf(b []byte) (k [ldpc.SaltSize]byte) {
	copy(k[:], b)
	return
}

// VerifHandshake decides K01: the peer's key and the first codeword arrive in
// pieces of any size, or the stream fails on the way.
func VerifHandshake() {
	vnd.SetNow(vSec)
	c := vController()
	var key [ldpc.SaltSize]byte
	for i := range key {
		key[i] = byte(i + 1)
	}
	conn := &vConn{key: ldpc.SaltSize, cuts: vnd.Param("cuts"), accept: -1, more: make(chan struct{}, 1)}
	first := vTx(0, 1000)
	buf := &vBuf{}
	enc := gob.NewEncoder(buf)
	enc.Encode(Codeword{ldpc.VMake([]*ldpc.Transaction{first}, key), 0, 1000})
	stream := append(append([]byte{}, key[:]...), buf.take()...)
	complete := true
	switch vnd.Choose(3) {
	case 0:
		conn.in = stream
	case 1: // fails before the key is complete
		conn.in = stream[:vnd.Choose(ldpc.SaltSize)]
		conn.fails, complete = true, false
	case 2: // our key cannot be sent
		conn.in = stream
		conn.accept, complete = vnd.Choose(ldpc.SaltSize), false
	}
	done := make(chan error, 1)
	vnd.Go(func() { done <- c.handleConn("peer", conn) })
	vnd.Yield()

	var p *peer
	select {
	case p = <-c.newPeer:
	default:
	}
	vnd.Yield()
	if !complete {
		vnd.Assert(p == nil, "a peer is registered without a complete exchange of keys")
		vnd.Assert(len(done) == 1 && <-done != nil, "an incomplete exchange of keys is not reported")
		vnd.Reach("refused")
		return
	}
	vnd.Assert(p != nil, "the peer is not registered after the exchange of keys")
	vnd.Assert(len(done) == 1 && <-done == nil, "a complete exchange of keys is refused")
	vnd.Assert(!conn.readFirst, "the peer's key is awaited before ours is sent")
	vnd.Assert(len(conn.out) == ldpc.SaltSize, "something else than our key is sent")
	vnd.Assert(len(c.decodedTransaction) == 1, "the codeword after the peer's key is not decoded")
	vnd.Assert(vIndex((<-c.decodedTransaction).Transaction, []*ldpc.Transaction{first}) == 0, "another transaction")

	second := vTx(1, 2000)
	p.notifyUnexpiredTransaction(second)
	vnd.Yield()
	vnd.SetNow(vSec + 10*vMs)
	vnd.Tick(10 * vMs)
	vnd.Yield()
	in := &vIncoming{c: conn}
	got := in.all()
	vnd.Assert(len(got) == 1, "the codewords the rate allows are not sent")
	names := ldpc.VMembers(got[0].Codeword)
	vnd.Assert(len(names) == 1 && names[0] == ldpc.VName(second, vKeyOf(conn.out)), "a codeword is not salted with the key that was sent")
	vnd.Assert(len(c.decodedTransaction) == 0, "a transaction out of nowhere")
	if conn.cuts < vnd.Param("cuts") {
		vnd.Reach("fragmented")
	}
	vnd.Reach("end")
}
