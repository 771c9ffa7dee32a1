package main

import (
	"encoding/gob"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vItem struct {
	at uint64
	m  int
}

// vPeer models one connection of a node.
type vPeer struct {
	conn   *vConn
	key    [ldpc.SaltSize]byte
	buf    *vBuf
	enc    *gob.Encoder
	in     *vIncoming
	window []vItem
	rate   float64
	credit float64
	lost   uint64
}

// VerifNode decides how the parts of a node work together (K02, K03, K04):
// peers send codewords over their connections, local transactions are
// generated, codewords are sent at every tick.
func VerifNode() {
	n, k := vnd.Param("n"), vnd.Param("k")
	const inc, dec, min, timeout = 45.0, 45.0 * 0.5, 110.0, 15 * vMs
	sketch, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	now := uint64(vSec)
	vnd.SetNow(now)
	c := vController()
	c.decodeTimeout = time.Duration(timeout)
	c.delaySketch = sketch
	vnd.Go(func() { c.loop() })

	var peers []*vPeer
	for i := 0; i < vnd.Param("peers"); i++ {
		p := &vPeer{buf: &vBuf{}, rate: 130, conn: &vConn{accept: -1, more: make(chan struct{}, 1)}}
		for j := range p.key {
			p.key[j] = byte(10*i + j + 1)
		}
		p.enc = gob.NewEncoder(p.buf)
		p.in = &vIncoming{c: p.conn}
		p.conn.in = append([]byte{}, p.key[:]...)
		done := make(chan error, 1)
		vnd.Go(func() { done <- c.handleConn("peer", p.conn) })
		vnd.Yield()
		vnd.Assert(len(done) == 1 && <-done == nil, "a complete exchange of keys is refused")
		peers = append(peers, p)
	}

	txs := vTxs(n)
	known, last := 0, 0 // transactions learned, and those learned by the last event
	var all []int       // every codeword received
	for step := 0; step < k; step++ {
		before := known
		switch vnd.Choose(4) {
		case 0: // a codeword
			p := peers[vnd.Choose(len(peers))]
			m := 1 + vnd.Choose(1<<uint(n)-1)
			rep := vnd.Choose(2)
			p.enc.Encode(Codeword{ldpc.VMake(vPick(txs, m), p.key), rep, int64(now / 1000)})
			p.conn.feed(p.buf.take())
			for len(p.window) > 0 && now-p.window[0].at >= timeout {
				if p.window[0].m&^known != 0 {
					p.lost++
					vnd.Reach("lost")
				}
				p.window = p.window[1:]
			}
			p.window = append(p.window, vItem{now, m})
			all = append(all, m)
			p.rate += inc * float64(rep)
		case 1: // a transaction generated here
			i := vnd.Choose(n)
			if known>>uint(i)&1 != 0 {
				vnd.Stop()
			}
			c.localTransaction <- txs[i]
			known |= 1 << uint(i)
			last = 1 << uint(i)
			before = known
		case 2: // time for codewords
			now += 10 * vMs
			vnd.SetNow(now)
			vnd.Tick(10 * vMs)
			vnd.Yield()
			for _, p := range peers {
				p.credit += 0.01 * p.rate
				count := 0
				for p.credit >= 1 {
					if p.credit < 1+1e-9 {
						vnd.Stop() // rounding would decide
					}
					p.credit--
					count++
					p.rate -= dec
					if p.rate < min {
						p.rate = min
					}
				}
				if p.credit > 1-1e-9 {
					vnd.Stop()
				}
				got := p.in.all()
				vnd.Assert(len(got) == count, "not the number of codewords the rate allows")
				for _, cw := range got {
					vnd.Assert(uint64(cw.Loss) == p.lost, "a codeword does not report exactly the losses not reported before")
					if p.lost > 0 {
						vnd.Reach("reported")
					}
					p.lost = 0
					vnd.Assert(uint64(cw.UnixMicro) == now/1000, "a codeword is not stamped with the time it is made")
					names := ldpc.VMembers(cw.Codeword)
					if last == 0 {
						vnd.Assert(len(names) == 0, "a codeword of transactions nobody learned")
						continue
					}
					vnd.Assert(len(names) == 1, "not a codeword of the last transaction")
					ok := false
					for i, t := range txs {
						if last>>uint(i)&1 != 0 {
							ok = ok || names[0] == ldpc.VName(t, vKeyOf(p.conn.out))
						}
					}
					vnd.Assert(ok, "not a codeword of the last transaction")
					if known&last == last && last != 0 {
						vnd.Reach("sent")
					}
				}
			}
		case 3:
			now += vSec
			vnd.SetNow(now)
			vnd.Tick(vSec)
		}
		vnd.Yield()
		for again := true; again; {
			again = false
			for _, c := range all {
				if u := c &^ known; u != 0 && u&(u-1) == 0 {
					known |= u
					again = true
				}
			}
		}
		if known != before {
			last = known &^ before
			vnd.Reach("decoded")
			if last&(last-1) != 0 {
				vnd.Reach("decoded several")
			}
		}
		for _, p := range peers {
			vnd.Assert(len(p.in.all()) == 0, "a codeword is sent out of turn")
		}
	}
	vnd.Reach("end")
}
