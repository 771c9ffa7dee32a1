package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vWData returns n symbols with fixed pseudo-random mappings, except the
// free-th, which has any mapping; any contents.
func vWData(n, free int, seed uint64) []vW {
	data := make([]vW, n)
	for i := range data {
		data[i] = vW{vMix(seed+uint64(i)) &^ vFree, vnd.U64()}
		if i == free {
			data[i].tag = vFree
		}
	}
	return data
}

func vWSame(a, b []HashedSymbol[*vW], what string) {
	vnd.Assert(len(a) == len(b), what+": different number of symbols after a reset")
	for i := range a {
		vnd.Assert(a[i].Hash == b[i].Hash, what+": different symbol after a reset")
		vnd.Assert(*a[i].Symbol == *b[i].Symbol, what+": different data after a reset")
	}
}

// VerifWideReset decides R05 after a longer history: a larger set is encoded
// and reconciled, everything is reset, and another larger set follows.
func VerifWideReset() {
	n, k := vnd.Param("n"), vnd.Param("k")
	seed := uint64(vnd.Choose(vnd.Param("seeds"))) << 32
	n1 := []int{n, n / 2, 2 * n}[vnd.Choose(3)]
	k1 := []int{2 * k, k, 3, 0}[vnd.Choose(4)]
	when := vnd.Choose(3)
	old := vWData(n1, -1, seed+1<<16)
	free := []int{0, n - 1, n / 2}[vnd.Choose(3)]
	data := vWData(n, free, seed)
	cp := func(s []vW, i int) *vW { c := s[i]; return &c }
	enc, ref := &Encoder[*vW]{}, &Encoder[*vW]{}
	dec, dref := &Decoder[*vW]{}, &Decoder[*vW]{}
	for i := range old {
		if i%3 != 0 {
			enc.AddSymbol(cp(old, i))
		}
		if i%3 != 1 {
			dec.AddSymbol(cp(old, i))
		}
	}
	for i := 0; i < k1; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		if when == 1 || when == 2 && i == k1/2 {
			dec.TryDecode()
		}
	}
	enc.Reset()
	dec.Reset()
	for i := 0; i < n; i++ {
		if i%3 != 0 {
			enc.AddSymbol(cp(data, i))
			ref.AddSymbol(cp(data, i))
		}
		if i%3 != 1 {
			dec.AddSymbol(cp(data, i))
			dref.AddSymbol(cp(data, i))
		}
	}
	every := []int{1, k}[vnd.Choose(2)]
	for i := 1; i <= k; i++ {
		a, b := enc.ProduceNextCodedSymbol(), ref.ProduceNextCodedSymbol()
		vnd.Assert(a.count == b.count && a.checksum == b.checksum, "coded symbol after a reset differs from a new encoder's")
		vnd.Assert((a.sum == nil) == (b.sum == nil) && (a.sum == nil || *a.sum == *b.sum), "coded symbol data after a reset differs from a new encoder's")
		dec.AddCodedSymbol(a)
		dref.AddCodedSymbol(b)
		if i%every == 0 {
			dec.TryDecode()
			dref.TryDecode()
		}
		vnd.Assert(dec.Decoded() == dref.Decoded(), "completion report after a reset differs from a new decoder's")
		vWSame(dec.Remote(), dref.Remote(), "remote")
		vWSame(dec.Local(), dref.Local(), "local")
	}
	if dec.Decoded() {
		vnd.Reach("done")
	}
	vnd.Reach("end")
}

// VerifWideSketch decides R06 on larger sets and sketches.
func VerifWideSketch() {
	n, z := vnd.Param("n"), vnd.Param("z")
	seed := uint64(vnd.Choose(vnd.Param("seeds"))) << 32
	nr := []int{n / 3, n / 2, n - 1}[vnd.Choose(3)]
	nl := []int{n / 3, n / 4, 0}[vnd.Choose(3)]
	if nr+nl > n {
		nl = n - nr
	}
	free := []int{0, nr, n - 1}[vnd.Choose(3)]
	if free >= n {
		free = n - 1
	}
	data := vWData(n, free, seed)
	cp := func(i int) *vW { c := data[i]; return &c }
	in := make([][]bool, n)
	for i := range data {
		e := Encoder[*vW]{}
		e.AddSymbol(cp(i))
		in[i] = make([]bool, z)
		for c := range in[i] {
			in[i][c] = e.ProduceNextCodedSymbol().count != 0
		}
	}
	a, b := make(Sketch[*vW], z), make(Sketch[*vW], z)
	for i := 0; i < n; i++ {
		if i < nr || i >= nr+nl {
			if i%2 == 0 {
				a.AddSymbol(cp(i))
			} else {
				a.AddHashedSymbol(HashedSymbol[*vW]{cp(i), data[i].Hash()})
			}
		}
		if i >= nr {
			b.AddSymbol(cp(i))
		}
	}
	d := a.Subtract(b)
	vnd.Assert(len(d) == z, "difference of sketches has another size")
	for c := range d {
		cnt, chk, sum := int64(0), uint64(0), uint64(0)
		for i := 0; i < nr+nl; i++ {
			if in[i][c] {
				if i < nr {
					cnt++
				} else {
					cnt--
				}
				chk ^= data[i].Hash()
				sum ^= data[i].d
			}
		}
		vnd.Assert(d[c].count == cnt && d[c].checksum == chk, "cell differs from the combination of the symbols only one side has")
		vnd.Assert(d[c].sum == nil && sum == 0 || d[c].sum.d == sum, "cell data differs from the combination of the symbols only one side has")
		cnt, chk, sum = 0, 0, 0
		for i := nr; i < n; i++ {
			if in[i][c] {
				cnt++
				chk ^= data[i].Hash()
				sum ^= data[i].d
			}
		}
		vnd.Assert(b[c].count == cnt && b[c].checksum == chk, "subtraction altered the sketch subtracted")
		vnd.Assert(b[c].sum == nil && sum == 0 || b[c].sum.d == sum, "subtraction altered the data of the sketch subtracted")
	}
	unknown := make([]bool, n)
	for i := 0; i < nr+nl; i++ {
		unknown[i] = true
	}
	for again := true; again; {
		again = false
		for c := 0; c < z; c++ {
			m, last := 0, 0
			for s, u := range unknown {
				if u && in[s][c] {
					m++
					last = s
				}
			}
			if m == 1 {
				unknown[last] = false
				again = true
			}
		}
	}
	explained := true
	for c := 0; c < z; c++ {
		for s, u := range unknown {
			if u && in[s][c] {
				explained = false
			}
		}
	}
	remote, local, ok := d.Decode()
	vnd.Assert(ok == explained, "completion report differs from all cells being explained")
	check := func(list []HashedSymbol[*vW], lo, hi int, side string) {
		seen := make([]bool, n)
		for _, h := range list {
			f := -1
			for i := range data {
				if data[i].tag == h.Symbol.tag {
					f = i
				}
			}
			vnd.Assert(f >= lo && f < hi, side+" list holds something that does not belong there")
			vnd.Assert(!seen[f], side+" list holds a symbol twice")
			seen[f] = true
			vnd.Assert(h.Symbol.d == data[f].d, side+" list holds a symbol with altered data")
			vnd.Assert(h.Hash == data[f].Hash(), side+" list holds a symbol with a wrong hash")
		}
		for i := lo; i < hi; i++ {
			vnd.Assert(seen[i] == !unknown[i], side+" list differs from what peeling recovers")
		}
	}
	check(remote, 0, nr, "remote")
	check(local, nr, nr+nl, "local")
	if ok {
		vnd.Reach("done")
	}
	vnd.Reach("end")
}
