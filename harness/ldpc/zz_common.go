package ldpc

import (
	"encoding/binary"

	"github.com/dchest/siphash"
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

var vSalt = [SaltSize]byte{9, 1, 7, 3, 4, 200, 6, 5, 8, 2, 10, 11, 12, 99, 14, 13}

// vItem is the content of a transaction: its first and its last word.
type vItem struct{ a, z uint64 }

func (x vItem) bytes() []byte {
	b := make([]byte, TxSize)
	binary.LittleEndian.PutUint64(b, x.a)
	binary.LittleEndian.PutUint64(b[TxSize-8:], x.z)
	return b
}

func vTx(x vItem) *Transaction {
	t := &Transaction{}
	err := t.UnmarshalBinary(x.bytes())
	vnd.Assert(err == nil, "a transaction of the right size was refused")
	return t
}

// vContent reads the content back.
func vContent(b []byte) (x vItem, rest bool) {
	x.a = binary.LittleEndian.Uint64(b)
	x.z = binary.LittleEndian.Uint64(b[TxSize-8:])
	rest = true
	for i := 8; i < TxSize-8; i++ {
		rest = rest && b[i] == 0
	}
	return
}

func vName(x vItem) uint32 {
	t := vTx(x)
	h := siphash.New(vSalt[:])
	h.Write(t.hash[:])
	return uint32(h.Sum64())
}

func vSame(x, y vItem) bool { return vnd.And(x.a == y.a, x.z == y.z) }

// vItems returns n different transactions.
func vItems(n int) []vItem {
	var out []vItem
	for i := 0; i < n; i++ {
		x := vItem{vnd.U64(), vnd.U64()}
		for _, o := range out {
			vnd.Assume(x.a != o.a)
		}
		out = append(out, x)
	}
	return out
}

func vNames(items []vItem) (out []uint32) {
	for _, x := range items {
		out = append(out, vName(x))
	}
	return
}

// vDist draws chosen degrees.
type vDist struct{ next *int }

func (d vDist) Uint64() uint64 { return uint64(*d.next) }
