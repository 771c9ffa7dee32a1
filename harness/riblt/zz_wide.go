package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vW is a symbol with a fixed tag that determines its hash and arbitrary
// content. The hash of the tag 1<<63 is arbitrary.
type vW struct{ tag, d uint64 }

const vFree = uint64(1) << 63

// vZero is the tag of a symbol whose hash is zero.
const vZero = uint64(1) << 62

func vMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (a *vW) XOR(b *vW) *vW {
	if a == nil {
		a = &vW{}
	}
	if b != nil {
		a.tag ^= b.tag
		a.d ^= b.d
	}
	return a
}

func (a *vW) Hash() uint64 {
	if a.tag == vFree {
		return vnd.Hash64("sym", a.tag)
	}
	if a.tag == vZero {
		return 0
	}
	return vMix(a.tag)
}

// VerifWide decides R01, R02, R03 on larger sets: fixed pseudo-random mappings
// for all symbols but one, which has any mapping; any contents.
func VerifWide() {
	n, k := vnd.Param("n"), vnd.Param("k")
	nr := []int{n / 3, n / 2, n - 1}[vnd.Choose(3)]
	nl := []int{n / 3, n / 4, 0}[vnd.Choose(3)]
	if nr+nl > n {
		nl = n - nr
	}
	seed := uint64(vnd.Choose(vnd.Param("seeds"))) << 32
	free := []int{0, nr, n - 1}[vnd.Choose(3)]
	if free >= n {
		free = n - 1
	}
	data := make([]vW, n)
	for i := range data {
		data[i] = vW{vMix(seed+uint64(i)) &^ vFree, vnd.U64()}
		if i == free {
			data[i].tag = vFree
		}
	}
	if vnd.Param("zero") == 1 {
		// one of the symbols has the hash zero
		z := []int{0, nr, n - 1}[vnd.Choose(3)]
		if z >= n {
			z = n - 1
		}
		if z == free {
			z = (z + 1) % n
		}
		data[z].tag = vZero
	}
	mk := func(i int) *vW { c := data[i]; return &c }
	masks := make([]uint, n)
	for i := range data {
		e := Encoder[*vW]{}
		e.AddSymbol(mk(i))
		for c := 0; c < k; c++ {
			if e.ProduceNextCodedSymbol().count != 0 {
				masks[i] |= 1 << c
			}
		}
	}
	enc, dec := &Encoder[*vW]{}, &Decoder[*vW]{}
	for i := 0; i < n; i++ {
		if i < nr || i >= nr+nl {
			enc.AddSymbol(mk(i))
		}
		if i >= nr {
			dec.AddSymbol(mk(i))
		}
	}
	unknown := make([]bool, n)
	for i := 0; i < nr+nl; i++ {
		unknown[i] = true
	}
	every := []int{1, 3, k}[vnd.Choose(3)]
	check := func(list []HashedSymbol[*vW], lo, hi int, side string) {
		seen := make([]bool, n)
		for _, h := range list {
			f := -1
			for i := range data {
				if data[i].tag == h.Symbol.tag {
					f = i
				}
			}
			vnd.Assert(f >= lo && f < hi, side+" list holds something that does not belong there")
			vnd.Assert(!seen[f], side+" list holds a symbol twice")
			seen[f] = true
			vnd.Assert(h.Symbol.d == data[f].d, side+" list holds a symbol with altered data")
			vnd.Assert(h.Hash == data[f].Hash(), side+" list holds a symbol with a wrong hash")
		}
		for i := lo; i < hi; i++ {
			vnd.Assert(seen[i] == !unknown[i], side+" list differs from what peeling recovers")
		}
	}
	for got := 1; got <= k; got++ {
		c := enc.ProduceNextCodedSymbol()
		cnt, chk, sum := int64(0), uint64(0), uint64(0)
		for i := range data {
			if (i < nr || i >= nr+nl) && masks[i]>>(got-1)&1 != 0 {
				cnt++
				chk ^= data[i].Hash()
				sum ^= data[i].d
			}
		}
		vnd.Assert(c.count == cnt && c.checksum == chk, "coded symbol is not the combination of the symbols mapped to it")
		if cnt > 0 {
			vnd.Assert(c.sum.d == sum, "coded symbol data is not the combination of the symbols mapped to it")
		}
		dec.AddCodedSymbol(c)
		if got%every == 0 || got == k {
			dec.TryDecode()
			vPeel(masks, unknown, got)
			vnd.Assert(dec.Decoded() == vExplained(masks, unknown, got), "completion report differs from all received coded symbols being explained")
			check(dec.Remote(), 0, nr, "remote")
			check(dec.Local(), nr, nr+nl, "local")
			if dec.Decoded() {
				vnd.Assert(vCount(unknown) == 0, "done but incomplete")
				vnd.Reach("done")
			}
		}
	}
	vnd.Reach("end")
}
