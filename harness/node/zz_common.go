package main

import (
	"encoding/binary"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

var vSalt = [ldpc.SaltSize]byte{9, 1, 7, 3, 4, 200, 6, 5, 8, 2, 10, 11, 12, 99, 14, 13}

const (
	vMs  = 1000000
	vSec = 1000 * vMs
)

// vTx returns transaction number i, generated at the given microsecond.
func vTx(i int, us uint64) *ldpc.Transaction {
	b := make([]byte, ldpc.TxSize)
	binary.LittleEndian.PutUint64(b, us)
	b[ldpc.TxSize-1] = byte(i + 1)
	t := &ldpc.Transaction{}
	if t.UnmarshalBinary(b) != nil {
		vnd.Fail("a transaction of the right size was refused")
	}
	return t
}

func vTxs(n int) (out []*ldpc.Transaction) {
	for i := 0; i < n; i++ {
		out = append(out, vTx(i, 0))
	}
	return
}

func vPick(all []*ldpc.Transaction, m int) (out []*ldpc.Transaction) {
	for i, t := range all {
		if m>>uint(i)&1 != 0 {
			out = append(out, t)
		}
	}
	return
}

// vIndex tells which transaction this is.
func vIndex(t *ldpc.Transaction, all []*ldpc.Transaction) int {
	vnd.Assert(t != nil, "no transaction")
	d := t.Serialized()
	for i, x := range all {
		e := x.Serialized()
		same := true
		for j := range e {
			same = same && d[j] == e[j]
		}
		if same {
			return i
		}
	}
	vnd.Fail("not a transaction, or an altered one")
	return 0
}

type vDegree uint64

func (d vDegree) Uint64() uint64 { return uint64(d) }
