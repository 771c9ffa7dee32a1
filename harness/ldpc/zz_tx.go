package ldpc

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

func vBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vnd.Byte()
	}
	return b
}

func vEqual(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vnd.And(ok, a[i] == b[i])
	}
	return ok
}

// vSameIdentity asks the encoder whether two transactions are the same.
func vSameIdentity(a, b *Transaction) bool {
	one := 1
	e := NewEncoder(vSalt, vDist{&one}, 4)
	e.AddTransaction(a)
	return !e.AddTransaction(b)
}

// VerifSerialize decides the serialization part of P01.
func VerifSerialize() {
	sizes := []int{0, 1, 8, TxSize - 1, TxSize + 1, 2 * TxSize, TxSize, TxSize}
	old := vBytes(TxSize)
	t := &Transaction{}
	reuse := vnd.Choose(2) == 1
	if reuse {
		vnd.Assert(t.UnmarshalBinary(old) == nil, "a transaction of the right size was refused")
	}
	k := vnd.Choose(len(sizes))
	data := vBytes(sizes[k])
	in := append([]byte{}, data...)
	err := t.UnmarshalBinary(in)
	vnd.Assert(vEqual(in, data), "unmarshalling changed its input")
	if len(data) != TxSize {
		vnd.Assert(err != nil, "a transaction of the wrong size was accepted")
		vnd.Assert(err.Error() != "", "an error without a message")
		vnd.Reach("refused")
		return
	}
	vnd.Assert(err == nil, "a transaction of the right size was refused")
	vnd.Assert(vEqual(t.Serialized(), data), "serialized bytes differ from the given ones")
	if k == len(sizes)-1 {
		// the caller may reuse its buffer
		for i := range in {
			in[i] = ^in[i]
		}
		vnd.Assert(vEqual(t.Serialized(), data), "transaction shares memory with its input")
		in = data
	}
	u := &Transaction{}
	vnd.Assert(u.UnmarshalBinary(in) == nil, "a transaction of the right size was refused")
	vnd.Assert(vSameIdentity(t, u), "same bytes, different identity")
	vnd.Assert(vEqual(u.Serialized(), t.Serialized()), "same bytes serialize differently")
	vnd.Reach("accepted")
}

// VerifIdentity decides that the identity depends on every byte and on nothing
// else.
func VerifIdentity() {
	a, b := vBytes(TxSize), vBytes(TxSize)
	t, u := &Transaction{}, &Transaction{}
	if vnd.Choose(2) == 1 {
		vnd.Assert(t.UnmarshalBinary(b) == nil, "a transaction of the right size was refused")
	}
	vnd.Assert(t.UnmarshalBinary(a) == nil, "a transaction of the right size was refused")
	vnd.Assert(u.UnmarshalBinary(b) == nil, "a transaction of the right size was refused")
	if vEqual(a, b) {
		vnd.Assert(vSameIdentity(t, u), "same bytes, different identity")
		vnd.Reach("same")
	} else {
		vnd.Assert(!vSameIdentity(t, u), "different bytes, same identity")
		vnd.Reach("different")
	}
}

// VerifXOR decides the XOR part of P01.
func VerifXOR() {
	var a, b, x, y TransactionData
	copy(a[:], vBytes(TxSize))
	copy(b[:], vBytes(TxSize))
	x, y = a, b
	x.XOR(&b)
	ok := true
	for i := range x {
		ok = vnd.And(ok, x[i] == a[i]^b[i])
	}
	vnd.Assert(ok, "XOR is not byte-wise")
	vnd.Assert(vEqual(b[:], y[:]), "XOR changed its argument")
	y.XOR(&a)
	vnd.Assert(vEqual(x[:], y[:]), "XOR is not symmetric")
	x.XOR(&b)
	vnd.Assert(vEqual(x[:], a[:]), "XOR is not self-inverse")
	x.XOR(&x)
	var zero TransactionData
	vnd.Assert(vEqual(x[:], zero[:]), "XOR with itself is not zero")
	vnd.Reach("end")
}
