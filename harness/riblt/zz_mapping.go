package riblt

import (
	"math/bits"

	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// VerifStep decides R04 at any position: from any generator state and any
// index up to the bound, the next index is larger and valid.
func VerifStep() {
	j := vnd.U64()
	vnd.Assume(j <= uint64(1)<<vnd.Param("log_j"))
	m := randomMapping{vnd.U64(), j}
	n := m.nextIndex()
	vnd.Assert(n == m.lastIdx, "returned index is not the stored index")
	vnd.Assert(n > j, "index does not increase")
	vnd.Assert(int(n) > 0, "index is not a valid int")
	vnd.Reach("end")
}

// vThreshold is the generator output at which the designed distance from index
// j is x/1024: 2^64 (1 - ((j+1.5)/(j+1.5+x/1024))^2), rounded down.
func vThreshold(j, x uint64) uint64 {
	a := (2*j + 3) * 512
	b := a + x
	t, _ := bits.Div64(b*b-a*a, 0, b*b)
	return t
}

// VerifDensity decides R07: for every generator output between two designed
// thresholds, the distance to the next index is the designed one.
func VerifDensity() {
	js := []uint64{0, 1, 2, 3, 4, 7, 12, 31, 100, 999, 12345, 400000}
	n := vnd.Param("js")
	j := js[vnd.Choose(n)]
	// distances looked at: all small ones, then ever larger gaps
	var ss []uint64
	for s := uint64(1); s <= 24; s++ {
		ss = append(ss, s)
	}
	for s := uint64(32); s <= 16*(j+3) && (2*j+3)*512+1024*(s+s/3+1) < 1<<32; s += s / 3 {
		ss = append(ss, s)
	}
	i := vnd.Choose(len(ss))
	s := ss[i]
	var lo, hi, min, max uint64
	switch vnd.Choose(3) {
	case 0: // strictly between the thresholds of s-1 and s
		lo, hi = vThreshold(j, 1024*(s-1)+1)+1, vThreshold(j, 1024*s-1)
		min, max = s, s
	case 1: // around the threshold of s
		lo, hi = vThreshold(j, 1024*s-2), vThreshold(j, 1024*s+2)+1
		min, max = s, s+1
	case 2: // between s and the next distance looked at
		lo, min = vThreshold(j, 1024*s+1)+1, s+1
		if i+1 < len(ss) {
			hi, max = vThreshold(j, 1024*ss[i+1]-1), ss[i+1]
		} else {
			hi, max = ^uint64(0), ^uint64(0)
		}
		if s == 1 {
			lo, min, max, hi = 0, 1, 1, vThreshold(j, 1023)
		}
	}
	p := vnd.U64()
	probe := randomMapping{p, j}
	probe.nextIndex()
	r := probe.prng
	vnd.Assume(r >= lo && r <= hi)
	m := randomMapping{p, j}
	d := m.nextIndex() - j
	vnd.Assert(d >= min, "next index closer than designed")
	vnd.Assert(d <= max, "next index farther than designed")
	vnd.Assert(m.lastIdx-j == d, "returned index is not the stored index")
	vnd.Reach("end")
}
