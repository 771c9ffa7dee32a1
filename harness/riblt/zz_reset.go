package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vSame asserts that two lists of recovered symbols are equal.
func vSame[T vSym[T]](a, b []HashedSymbol[T], what string) {
	vnd.Assert(len(a) == len(b), what+": different number of symbols after a reset")
	for i := range a {
		vnd.Assert(a[i].Hash == b[i].Hash, what+": different symbol after a reset")
		vnd.Assert(a[i].Symbol.data() == b[i].Symbol.data(), what+": different data after a reset")
	}
}

func vResetEncoder[T vSym[T]](mk func(uint64) T) {
	n1, n2, k := vnd.Choose(vnd.Param("n1")+1), vnd.Choose(vnd.Param("n2")+1), vnd.Param("k")
	k1 := vnd.Choose(k + 1)
	old, data := vData(n1), vData(n2)
	enc := &Encoder[T]{}
	for _, d := range old {
		enc.AddSymbol(mk(d))
	}
	for i := 0; i < k1; i++ {
		enc.ProduceNextCodedSymbol()
	}
	for r := 1 + vnd.Choose(2); r > 0; r-- {
		enc.Reset()
	}
	ref := &Encoder[T]{}
	for _, d := range data {
		enc.AddSymbol(mk(d))
		ref.AddSymbol(mk(d))
	}
	for i := 0; i < k; i++ {
		a, b := enc.ProduceNextCodedSymbol(), ref.ProduceNextCodedSymbol()
		vnd.Assert(a.count == b.count && a.checksum == b.checksum, "coded symbol after a reset differs from a new encoder's")
		vnd.Assert(a.sum.data() == b.sum.data(), "coded symbol data after a reset differs from a new encoder's")
	}
	vnd.Reach("end")
}

// VerifResetEncoder decides R05 for encoders of symbols passed by value.
func VerifResetEncoder() { vResetEncoder(vNewS) }

// VerifResetEncoderPtr decides R05 for encoders of symbols passed by reference.
func VerifResetEncoderPtr() { vResetEncoder(vNewP) }

// vUse feeds the coded symbols of remote into decoders knowing local; all
// decoders are driven alike. compare is called after every step.
func vUse[T vSym[T]](mk func(uint64) T, remote, local []uint64, k int, tries uint, compare func(), decs ...*Decoder[T]) {
	for _, d := range decs {
		enc := &Encoder[T]{}
		_ = enc
		for _, x := range local {
			d.AddSymbol(mk(x))
		}
	}
	encs := make([]*Encoder[T], len(decs))
	for j := range decs {
		encs[j] = &Encoder[T]{}
		for _, x := range remote {
			encs[j].AddSymbol(mk(x))
		}
	}
	for i := 0; i < k; i++ {
		for j, d := range decs {
			d.AddCodedSymbol(encs[j].ProduceNextCodedSymbol())
			if tries>>i&1 != 0 {
				d.TryDecode()
			}
		}
		if compare != nil {
			compare()
		}
	}
}

func vResetDecoder[T vSym[T]](mk func(uint64) T) {
	n1, n2 := vnd.Param("n1"), vnd.Param("n2")
	k1, k2 := vnd.Choose(vnd.Param("k1")+1), vnd.Param("k2")
	r1, l1, _ := vSplit(n1)
	r2, l2, _ := vSplit(n2)
	old, data := vData(n1), vData(n2)
	dec, ref := &Decoder[T]{}, &Decoder[T]{}
	loc := append(append([]uint64{}, old[r1:r1+l1]...), old[r1+l1:]...)
	rem := append(append([]uint64{}, old[:r1]...), old[r1+l1:]...)
	vUse(mk, rem, loc, k1, uint(vnd.Choose(1<<k1)), nil, dec)
	dec.Reset()
	compare := func() {
		vnd.Assert(dec.Decoded() == ref.Decoded(), "completion report after a reset differs from a new decoder's")
		vSame(dec.Remote(), ref.Remote(), "remote")
		vSame(dec.Local(), ref.Local(), "local")
	}
	compare()
	loc = append(append([]uint64{}, data[r2:r2+l2]...), data[r2+l2:]...)
	rem = append(append([]uint64{}, data[:r2]...), data[r2+l2:]...)
	tries := uint(1<<(k2-1) | 1<<k2)
	if vnd.Choose(2) == 1 {
		tries = 1<<k2 - 1
	}
	vUse(mk, rem, loc, k2, tries, compare, dec, ref)
	vnd.Reach("end")
}

// VerifResetDecoder decides R05 for decoders of symbols passed by value.
func VerifResetDecoder() { vResetDecoder(vNewS) }

// VerifResetDecoderPtr decides R05 for decoders of symbols passed by reference.
func VerifResetDecoderPtr() { vResetDecoder(vNewP) }
