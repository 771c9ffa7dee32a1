package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vI is a symbol whose hash is its content, so that every hash value occurs.
type vI struct{ d uint64 }

func (a vI) XOR(b vI) vI    { return vI{a.d ^ b.d} }
func (a vI) Hash() uint64   { return a.d }
func (a vI) data() uint64   { return a.d }

// VerifAnyHash decides R04 through the exported types: any hash, from the
// start of the stream.
func VerifAnyHash() {
	k := vnd.Param("k")
	d := vnd.U64()
	enc := &Encoder[vI]{}
	enc.AddSymbol(vI{d})
	sk := make(Sketch[vI], k)
	if vnd.Choose(2) == 0 {
		sk.AddSymbol(vI{d})
		vnd.Assert(sk[0].count == 1, "sketch: symbol missing from the first cell")
		for i := range sk {
			c := sk[i]
			vnd.Assert(c.count == 0 || c.count == 1, "sketch: symbol mapped twice to a cell")
			if c.count == 0 {
				vnd.Assert(c.checksum == 0 && c.sum.d == 0, "sketch: untouched cell not empty")
			} else {
				vnd.Assert(c.checksum == d && c.sum.d == d, "sketch: cell content wrong")
			}
		}
		vnd.Reach("sketch")
		return
	}
	know := vnd.Choose(2) == 1
	dec := &Decoder[vI]{}
	if know {
		dec.AddSymbol(vI{d})
	}
	for i := 0; i < k; i++ {
		c := enc.ProduceNextCodedSymbol()
		vnd.Assert(c.count == 0 || c.count == 1, "symbol mapped twice to a coded symbol")
		if i == 0 {
			vnd.Assert(c.count == 1, "symbol missing from the first coded symbol")
		}
		if c.count == 0 {
			vnd.Assert(c.checksum == 0 && c.sum.d == 0, "coded symbol without the symbol not empty")
		} else {
			vnd.Assert(c.checksum == d && c.sum.d == d, "coded symbol content wrong")
		}
		dec.AddCodedSymbol(c)
		dec.TryDecode()
		vnd.Assert(dec.Decoded(), "single symbol not resolved")
		vnd.Assert(len(dec.Local()) == 0, "symbol reported as local")
		if know {
			vnd.Assert(len(dec.Remote()) == 0, "common symbol reported as remote")
		} else {
			vnd.Assert(len(dec.Remote()) == 1 && dec.Remote()[0].Hash == d, "symbol not recovered")
		}
	}
	vnd.Reach("stream")
}
