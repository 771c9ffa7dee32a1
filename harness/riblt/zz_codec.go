package riblt

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vReconcile runs one reconciliation with any split of the symbols, any mapping
// and decoding attempts at any time. exact also asserts that exactly what
// peeling can recover is recovered.
func vReconcile[T vSym[T]](mk func(uint64) T, exact bool) {
	n, k := vnd.Param("n"), vnd.Param("k")
	nr, nl, _ := vSplit(n)
	data := vData(n)
	masks := vMasks(mk, data, k)
	if vnd.Param("sorted") == 1 && vnd.Symbolic() {
		// symbols of one class are interchangeable
		for i := 1; i < n; i++ {
			if i != nr && i != nr+nl {
				vnd.Assume(masks[i-1] <= masks[i])
			}
		}
	}
	enc := &Encoder[T]{}
	dec := &Decoder[T]{}
	commonFirst := nr+nl < n && vnd.Choose(2) == 1
	addCommon := func() {
		for i := nr + nl; i < n; i++ {
			enc.AddSymbol(mk(data[i]))
			dec.AddSymbol(mk(data[i]))
		}
	}
	if commonFirst {
		addCommon()
	}
	for i := 0; i < nr; i++ {
		enc.AddSymbol(mk(data[i]))
	}
	for i := nr; i < nr+nl; i++ {
		dec.AddSymbol(mk(data[i]))
	}
	if !commonFirst {
		addCommon()
	}
	unknown := make([]bool, n)
	for i := 0; i < nr+nl; i++ {
		unknown[i] = true
	}
	check := func(got int) {
		rec := func(i int) bool { return !unknown[i] }
		if !exact {
			rec = nil
		}
		vCheckList(dec.Remote(), data, 0, nr, rec, "remote")
		vCheckList(dec.Local(), data, nr, nr+nl, rec, "local")
		if exact {
			vnd.Assert(dec.Decoded() == vExplained(masks, unknown, got), "completion report differs from all received coded symbols being explained")
		}
		if dec.Decoded() && got > 0 {
			vnd.Assert(len(dec.Remote()) == nr, "done but the remote difference is incomplete")
			vnd.Assert(len(dec.Local()) == nl, "done but the local difference is incomplete")
			vnd.Reach("done")
		}
	}
	pattern := -1
	if p := vnd.Param("patterns"); p > 0 {
		pattern = vnd.Choose(p)
	}
	for got := 1; got <= k; got++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		check(got)
		tries := 2
		if got < k {
			switch pattern {
			case -1:
				tries = vnd.Choose(2)
			case 0:
				tries = 1
			case 1:
				tries = 0
			case 2:
				tries = got % 2
			case 3:
				tries = (got + 1) % 2
			}
		}
		for t := 0; t < tries; t++ {
			dec.TryDecode()
			vPeel(masks, unknown, got)
			check(got)
		}
	}
	if vCount(unknown) > 0 {
		vnd.Reach("stuck")
	}
	vnd.Reach("end")
}

// VerifReconcile decides R01 for symbols passed by value.
func VerifReconcile() { vReconcile(vNewS, false) }

// VerifReconcilePtr decides R01 for symbols passed by reference.
func VerifReconcilePtr() { vReconcile(vNewP, false) }

// VerifPeel decides R02 for symbols passed by value.
func VerifPeel() { vReconcile(vNewS, true) }

// VerifPeelPtr decides R02 for symbols passed by reference.
func VerifPeelPtr() { vReconcile(vNewP, true) }
