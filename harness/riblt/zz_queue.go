package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifQueue decides (R01, R02), for a coding window whose symbols start at any of the
// next indices (as those a decoder recovers do), that every symbol is applied
// to exactly the coded symbols its mapping names.
func VerifQueue() {
	n, k := vnd.Param("n"), vnd.Param("k")
	w := codingWindow[vS]{}
	var ref []randomMapping
	var data []uint64
	pos := 0
	step := func() {
		c := w.applyWindow(CodedSymbol[vS]{}, add)
		cnt, sum, chk := int64(0), uint64(0), uint64(0)
		for i := range ref {
			if ref[i].lastIdx == uint64(pos) {
				cnt++
				sum ^= data[i]
				chk ^= vMix(uint64(i))
				ref[i].nextIndex()
			}
		}
		vnd.Assert(c.count == cnt, "a coded symbol covers other symbols than those mapped to it")
		vnd.Assert(c.sum.d == sum && c.checksum == chk, "a coded symbol is not the combination of the symbols mapped to it")
		pos++
	}
	between := vnd.Choose(2)
	for i := 0; i < n; i++ {
		d := vnd.U64()
		h := vMix(uint64(i))
		m := randomMapping{h, uint64(pos + vnd.Choose(vnd.Param("starts")))}
		w.addHashedSymbolWithMapping(HashedSymbol[vS]{vS{d}, h}, m)
		data = append(data, d)
		ref = append(ref, m)
		for j := 0; j < between; j++ {
			step()
		}
	}
	for pos < k {
		step()
	}
	vnd.Reach("end")
}
