package main

import (
	"encoding/binary"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vPipe is one end of a connection between two nodes.
type vPipe struct {
	vConn
	other *vPipe
	in    *vIncoming // what this end has written
}

func (p *vPipe) Write(b []byte) (int, error) {
	n, err := p.vConn.Write(b)
	p.other.feed(b[:n])
	return n, err
}

func vPipes() (a, b *vPipe) {
	mk := func() *vPipe {
		return &vPipe{vConn: vConn{accept: -1, more: make(chan struct{}, 1)}}
	}
	a, b = mk(), mk()
	a.other, b.other = b, a
	a.in, b.in = &vIncoming{c: &a.vConn}, &vIncoming{c: &b.vConn}
	return
}

var vGraphs = [][][2]int{
	{{0, 1}},
	{{0, 1}, {1, 2}},
	{{0, 1}, {1, 2}, {2, 0}},
	{{0, 1}, {0, 2}, {0, 3}},
}

// VerifNodes decides K05: real nodes talk to each other over their
// connections, which are made at any time.
func VerifNodes() {
	edges, k := vGraphs[vnd.Param("graph")], vnd.Param("k")
	n := 0
	for _, e := range edges {
		for _, x := range e {
			if x >= n {
				n = x + 1
			}
		}
	}
	now := uint64(vSec)
	vnd.SetNow(now)
	var nodes []*controller
	for i := 0; i < n; i++ {
		sketch, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
		if err != nil {
			panic(err)
		}
		c := vController()
		c.decodeTimeout = time.Duration(3600 * vSec)
		c.delaySketch = sketch
		nodes = append(nodes, c)
		vnd.Go(func() { c.loop() })
	}
	var pipes []*vPipe
	linked := 0
	link := func() {
		e := edges[linked]
		linked++
		a, b := vPipes()
		done := make(chan error, 2)
		vnd.Go(func() { done <- nodes[e[0]].handleConn("peer", a) })
		vnd.Go(func() { done <- nodes[e[1]].handleConn("peer", b) })
		vnd.Yield()
		vnd.Assert(len(done) == 2 && <-done == nil && <-done == nil, "a complete exchange of keys is refused")
		pipes = append(pipes, a, b)
	}
	// reach tells which nodes are connected to a node.
	reach := func(x int) map[int]bool {
		r := map[int]bool{x: true}
		for range edges {
			for _, e := range edges[:linked] {
				if r[e[0]] || r[e[1]] {
					r[e[0]], r[e[1]] = true, true
				}
			}
		}
		return r
	}
	var txs []*ldpc.Transaction // of any content
	for i := 0; i < k; i++ {
		b := make([]byte, ldpc.TxSize)
		for j := 0; j < ldpc.TxSize; j += 8 {
			binary.LittleEndian.PutUint64(b[j:], vnd.U64())
		}
		b[ldpc.TxSize-1] = byte(i + 1)
		t := &ldpc.Transaction{}
		vnd.Assert(t.UnmarshalBinary(b) == nil, "a transaction of the right size was refused")
		txs = append(txs, t)
	}
	gen := 0
	for step := 0; step < k; step++ {
		c := vnd.Choose(n + 2)
		at := -1
		switch {
		case c < n:
			at = c
			nodes[at].localTransaction <- txs[gen]
			gen++
			vnd.Yield()
		case c == n:
			if linked == len(edges) {
				vnd.Stop()
			}
			link()
			vnd.Reach("linked")
		}
		last := make([]int, len(pipes)) // what the ends sent last
		for t := 0; t < n; t++ {
			now += 10 * vMs
			vnd.SetNow(now)
			vnd.Tick(10 * vMs)
			vnd.Yield()
			for i, p := range pipes {
				last[i] = -1
				for _, cw := range p.in.all() {
					vnd.Assert(cw.Loss == 0, "a loss is reported on a connection without any")
					vnd.Assert(uint64(cw.UnixMicro) == now/1000, "a codeword is not stamped with the time it is made")
					names := ldpc.VMembers(cw.Codeword)
					if len(names) == 0 {
						vnd.Assert(cw.Symbol == ldpc.TransactionData{}, "an empty codeword with content")
						continue
					}
					vnd.Assert(len(names) == 1, "a codeword of more than the last transaction")
					hit := -1
					for j, x := range txs[:gen] {
						if ldpc.VName(x, vKeyOf(p.out)) == names[0] {
							hit = j
						}
					}
					vnd.Assert(hit >= 0, "a node knows a transaction nobody generated")
					vnd.Assert(vIsTx(cw, txs[hit]), "a codeword with altered content")
					last[i] = hit
				}
			}
		}
		if at >= 0 {
			r := reach(at)
			for i := range pipes {
				if !r[edges[i/2][i%2]] {
					continue
				}
				vnd.Assert(last[i] == gen-1, "a transaction does not reach every connected node")
				vnd.Reach("reached")
			}
		}
	}
	vnd.Reach("end")
}

// vIsTx tells whether a codeword is that of one transaction.
func vIsTx(cw Codeword, t *ldpc.Transaction) bool {
	d := t.Serialized()
	ok := true
	for i := range d {
		ok = vnd.And(ok, cw.Symbol[i] == d[i])
	}
	return ok
}
