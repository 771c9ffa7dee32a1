package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vS is a symbol passed by value.
type vS struct{ d uint64 }

func (a vS) XOR(b vS) vS  { return vS{a.d ^ b.d} }
func (a vS) Hash() uint64 { return vnd.Hash64("sym", a.d) }
func (a vS) data() uint64 { return a.d }

// vP is a symbol passed by reference; XOR modifies its receiver, as the
// Symbol interface allows.
type vP struct{ d uint64 }

func (a *vP) XOR(b *vP) *vP {
	if a == nil {
		a = &vP{}
	}
	if b != nil {
		a.d ^= b.d
	}
	return a
}
func (a *vP) Hash() uint64 { return vnd.Hash64("sym", a.d) }
func (a *vP) data() uint64 {
	if a == nil {
		return 0
	}
	return a.d
}

type vSym[T any] interface {
	Symbol[T]
	data() uint64
}

func vNewS(d uint64) vS  { return vS{d} }
func vNewP(d uint64) *vP { return &vP{d} }

// vData returns n different contents.
func vData(n int) []uint64 {
	var out []uint64
	for i := 0; i < n; i++ {
		d := vnd.U64()
		for _, o := range out {
			vnd.Assume(d != o)
		}
		out = append(out, d)
	}
	return out
}

// vMasks observes which of the first k coded symbols each content is mapped to.
func vMasks[T vSym[T]](mk func(uint64) T, data []uint64, k int) []uint {
	var out []uint
	for _, d := range data {
		e := Encoder[T]{}
		e.AddSymbol(mk(d))
		m := uint(0)
		for i := 0; i < k; i++ {
			c := e.ProduceNextCodedSymbol()
			if c.count != 0 {
				m |= 1 << i
			}
		}
		out = append(out, m)
	}
	return out
}

// vPeel marks the symbols among unknown that resolving coded symbols
// 0..k-1 one by one recovers.
func vPeel(masks []uint, unknown []bool, k int) {
	for again := true; again; {
		again = false
		for i := 0; i < k; i++ {
			n, last := 0, 0
			for s, u := range unknown {
				if u && masks[s]>>i&1 != 0 {
					n++
					last = s
				}
			}
			if n == 1 {
				unknown[last] = false
				again = true
			}
		}
	}
}

// vExplained tells whether none of the first k coded symbols has an unknown symbol.
func vExplained(masks []uint, unknown []bool, k int) bool {
	for i := 0; i < k; i++ {
		for s, u := range unknown {
			if u && masks[s]>>i&1 != 0 {
				return false
			}
		}
	}
	return true
}

func vCount(b []bool) int {
	n := 0
	for _, x := range b {
		if x {
			n++
		}
	}
	return n
}

// vSplit chooses how many of n symbols are only remote, only local, common.
func vSplit(n int) (int, int, int) {
	r := vnd.Choose(n + 1)
	l := vnd.Choose(n - r + 1)
	return r, l, n - r - l
}

// vCheckList asserts that list holds each recovered symbol of [lo,hi) once and nothing else.
func vCheckList[T vSym[T]](list []HashedSymbol[T], data []uint64, lo, hi int, recovered func(int) bool, side string) {
	seen := make([]bool, len(data))
	for _, h := range list {
		f := -1
		for i := range data {
			if h.Hash == vnd.Hash64("sym", data[i]) {
				f = i
			}
		}
		vnd.Assert(f >= 0, side+" list holds something that is no symbol")
		vnd.Assert(h.Symbol.data() == data[f], side+" list holds a symbol with altered data")
		vnd.Assert(f >= lo && f < hi, side+" list holds a symbol of the other side")
		vnd.Assert(!seen[f], side+" list holds a symbol twice")
		seen[f] = true
	}
	if recovered == nil {
		return
	}
	for i := lo; i < hi; i++ {
		if recovered(i) {
			vnd.Assert(seen[i], side+" list lacks a symbol that peeling recovers")
		} else {
			vnd.Assert(!seen[i], side+" list holds a symbol that peeling cannot recover")
		}
	}
}
