package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vCell asserts that c is exactly the combination of the symbols mapped to i.
func vCell[T vSym[T]](c CodedSymbol[T], data []uint64, masks []uint, i int, what string) {
	n := int64(0)
	var sum, chk uint64
	for s := range data {
		if masks[s]>>i&1 != 0 {
			n++
			sum ^= data[s]
			chk ^= vnd.Hash64("sym", data[s])
		}
	}
	vnd.Assert(c.count == n, what+": wrong count")
	vnd.Assert(c.sum.data() == sum, what+": wrong data")
	vnd.Assert(c.checksum == chk, what+": wrong checksum")
}

// vPerm chooses an order of n items.
func vPerm(n int) []int {
	var out []int
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	for len(left) > 0 {
		k := vnd.Choose(len(left))
		out = append(out, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return out
}

func vStream[T vSym[T]](mk func(uint64) T) {
	n, k := vnd.Param("n"), vnd.Param("k")
	data := vData(n)
	masks := vMasks(mk, data, k)
	for _, m := range masks {
		vnd.Assert(m&1 != 0, "a symbol is missing from the first coded symbol")
	}
	order := vPerm(n)
	how := vnd.Choose(3) // raw, hashed, alternating
	enc := &Encoder[T]{}
	sk := make(Sketch[T], k)
	own := make([]T, n)
	for p, i := range order {
		own[i] = mk(data[i])
		if how == 0 || how == 2 && p%2 == 0 {
			enc.AddSymbol(own[i])
			sk.AddSymbol(own[i])
		} else {
			h := HashedSymbol[T]{own[i], own[i].Hash()}
			enc.AddHashedSymbol(h)
			sk.AddHashedSymbol(h)
		}
	}
	for i := 0; i < k; i++ {
		c := enc.ProduceNextCodedSymbol()
		vCell(c, data, masks, i, "coded symbol")
		vCell(sk[i], data, masks, i, "sketch")
	}
	for i := range own {
		vnd.Assert(own[i].data() == data[i], "a symbol of the caller was modified")
	}
	vnd.Reach("end")
}

// VerifStream decides R03 for symbols passed by value.
func VerifStream() { vStream(vNewS) }

// VerifStreamPtr decides R03 for symbols passed by reference.
func VerifStreamPtr() { vStream(vNewP) }

func vSketchDiff[T vSym[T]](mk func(uint64) T) {
	n, k := vnd.Param("n"), vnd.Param("k")
	nr, nl, _ := vSplit(n)
	data := vData(n)
	masks := vMasks(mk, data, k)
	a, b := make(Sketch[T], k), make(Sketch[T], k)
	for i := range a {
		// cells hold no data before the first symbol; start from explicit zero
		a[i].sum, b[i].sum = mk(0), mk(0)
	}
	rev := vnd.Choose(2) == 1
	for j := 0; j < n; j++ {
		i := j
		if rev {
			i = n - 1 - j
		}
		if i < nr || i >= nr+nl {
			a.AddSymbol(mk(data[i]))
		}
		if i >= nr {
			b.AddSymbol(mk(data[i]))
		}
	}
	d := a.Subtract(b)
	vnd.Assert(len(d) == k, "subtraction changed the size")
	for i := 0; i < k; i++ {
		// common symbols cancel
		cnt := int64(0)
		var sum, chk uint64
		for s := 0; s < nr+nl; s++ {
			if masks[s]>>i&1 != 0 {
				if s < nr {
					cnt++
				} else {
					cnt--
				}
				sum ^= data[s]
				chk ^= vnd.Hash64("sym", data[s])
			}
		}
		vnd.Assert(d[i].count == cnt && d[i].checksum == chk && d[i].sum.data() == sum, "difference cell is not the difference of the sets")
	}
	remote, local, ok := d.Decode()
	for i := 0; i < k; i++ {
		vCell(b[i], data[nr:], masks[nr:], i, "the sketch subtracted")
	}
	unknown := make([]bool, n)
	for i := 0; i < nr+nl; i++ {
		unknown[i] = true
	}
	vPeel(masks, unknown, k)
	rec := func(i int) bool { return !unknown[i] }
	vCheckList(remote, data, 0, nr, rec, "remote")
	vCheckList(local, data, nr, nr+nl, rec, "local")
	vnd.Assert(ok == vExplained(masks, unknown, k), "success reported wrongly")
	if ok && k > 0 {
		vnd.Assert(len(remote) == nr && len(local) == nl, "success although the difference is incomplete")
		vnd.Reach("done")
	}
	vnd.Reach("end")
}

// VerifSketch decides R06 for symbols passed by value.
func VerifSketch() { vSketchDiff(vNewS) }

// VerifSketchPtr decides R06 for symbols passed by reference.
func VerifSketchPtr() { vSketchDiff(vNewP) }

// VerifSketchSize decides that sketches of different sizes are not subtracted.
func VerifSketchSize() {
	max := vnd.Param("k")
	a, b := vnd.Choose(max+1), vnd.Choose(max+1)
	vnd.Assume(a != b)
	sa, sb := make(Sketch[vS], a), make(Sketch[vS], b)
	d := vnd.U64()
	sa.AddSymbol(vS{d})
	sb.AddSymbol(vS{d})
	refused := false
	func() {
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		sa.Subtract(sb)
	}()
	vnd.Assert(refused, "sketches of different sizes were subtracted")
	vnd.Reach("end")
}
