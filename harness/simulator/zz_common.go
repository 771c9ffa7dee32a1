package main

import (
	"encoding/binary"
	"math/rand"
	"time"

	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vTx = lt.Transaction[transaction]
type vCw = lt.Codeword[transaction]

func vTs() uint64 {
	x := vnd.U64()
	vnd.Assume(x < 1<<50)
	return x
}

// vMake returns transaction number i, generated at the given time.
func vMake(i int, ts uint64) vTx {
	return lt.NewTransaction[transaction](transaction{uint64(i), time.Duration(ts)})
}

// vMakes returns n transactions generated at any times.
func vMakes(n int) (out []vTx) {
	for i := 0; i < n; i++ {
		out = append(out, vMake(1000+i, vTs()))
	}
	return
}

func vName(t vTx) uint32 {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, t.Data().idx)
	h := siphash.New(testKey[:])
	h.Write(b)
	return uint32(h.Sum64())
}

// vIndex tells which transaction this is.
func vIndex(t vTx, all []vTx, what string) int {
	for i, x := range all {
		if x.Data() == t.Data() {
			return i
		}
	}
	vnd.Fail(what + ": not a transaction, or an altered one")
	return 0
}

// vMembers tells which transactions a codeword stands for.
func vMembers(c vCw, all []vTx) (m int) {
	sym, names := lt.VParts(c)
	var acc transaction
	for _, n := range names {
		hit := -1
		for i, t := range all {
			if vName(t) == n {
				hit = i
			}
		}
		vnd.Assert(hit >= 0, "a codeword names something else than the transactions given")
		vnd.Assert(m>>uint(hit)&1 == 0, "a codeword names a transaction twice")
		m |= 1 << uint(hit)
		acc = acc.XOR(all[hit].Data())
	}
	vnd.Assert(acc == sym, "the content of a codeword is not that of its members")
	return
}

type vFixedDegree uint64

func (d vFixedDegree) Uint64() uint64 { return uint64(d) }

// vCodeword returns the codeword that stands for the given transactions.
func vCodeword(all []vTx, m int) vCw {
	n := 0
	for i := range all {
		n += m >> uint(i) & 1
	}
	e := lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, vFixedDegree(n), n)
	for i, t := range all {
		if m>>uint(i)&1 != 0 {
			e.AddTransaction(t)
		}
	}
	return e.ProduceCodeword()
}

// vServers returns servers made and connected the way main does it.
func vServers(n int, edges [][2]int, seed int64, c serverConfig) []*server {
	s := newServers(&des.Simulator{}, n, seed, c)
	for i, e := range edges {
		connectServers(s[e[0]], s[e[1]], time.Duration(i+1)*time.Millisecond)
	}
	return s
}

func vConfig(th int, overhead, loss float64, sync time.Duration) serverConfig {
	return serverConfig{
		blockArrivalIntv:  1e-9,
		blockArrivalBurst: 1,
		decoderMemory:     1000,
		senderConfig:      senderConfig{detectThreshold: th, controlOverhead: overhead},
		receiverConfig:    receiverConfig{detectThreshold: th, targetCodewordLoss: loss},
		forceSynchronize:  sync,
	}
}

type vLimits struct {
	th       int
	overhead float64
}

var vSenderConfigs = []vLimits{{1, 1}, {1, 0.5}, {2, 1}, {1, 0.3}, {3, 2}, {2, 0.7}}
