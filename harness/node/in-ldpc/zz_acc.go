package ldpc

import "github.com/dchest/siphash"

// VMake returns the codeword with the given content and members.
func VMake(txs []*Transaction, salt [SaltSize]byte) *Codeword {
	c := &Codeword{}
	for _, t := range txs {
		c.Symbol.XOR(&t.serialized)
		c.Members = append(c.Members, VName(t, salt))
	}
	return c
}

// VName is the salted hash of a transaction.
func VName(t *Transaction, salt [SaltSize]byte) uint32 {
	h := siphash.New(salt[:])
	h.Write(t.hash[:])
	return uint32(h.Sum64())
}

// VMembers returns the names a codeword carries.
func VMembers(c *Codeword) []uint32 { return c.Members }
