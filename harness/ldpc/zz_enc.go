package ldpc

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vAll checks the window through a codeword that names all of it.
func vAll(e *Encoder, deg *int, want []vItem) {
	*deg = len(want) + 2
	vIs(e.ProduceCodeword(), want, len(want), "codeword of the whole window")
}

// vIs checks that a codeword names n different ones of the given transactions
// and is their XOR.
func vIs(c *Codeword, items []vItem, n int, what string) {
	vnd.Assert(c != nil, what+": no codeword")
	vnd.Assert(len(c.Members) == n, what+": number of transactions named")
	var sum vItem
	seen := 0
	for _, m := range c.Members {
		hit := -1
		for j, x := range items {
			if m == vName(x) {
				hit = j
			}
		}
		vnd.Assert(hit >= 0, what+": names something outside the window")
		vnd.Assert(seen>>uint(hit)&1 == 0, what+": names a transaction twice")
		seen |= 1 << uint(hit)
		sum.a ^= items[hit].a
		sum.z ^= items[hit].z
	}
	got, rest := vContent(c.Symbol[:])
	vnd.Assert(vnd.And(vSame(got, sum), rest), what+": content is not the XOR of the transactions named")
}

// VerifProduce decides P02 for the codewords.
func VerifProduce() {
	n := vnd.Param("nmin") + vnd.Choose(vnd.Param("n")-vnd.Param("nmin")+1)
	items := vItems(n)
	deg := 1
	e := NewEncoder(vSalt, vDist{&deg}, vnd.Param("n"))
	for _, x := range items {
		vnd.Assert(e.AddTransaction(vTx(x)), "a new transaction was refused")
	}
	for i := 0; i < vnd.Param("k"); i++ {
		deg = 1 + vnd.Choose(n+1)
		want := deg
		if want > n {
			want = n
		}
		if want < n {
			vnd.Reach("sampled")
		}
		vIs(e.ProduceCodeword(), items, want, "codeword")
	}
	vAll(e, &deg, items)
	// the oldest goes first when the window overflows
	if n == vnd.Param("n") {
		x := vItem{vnd.U64(), vnd.U64()}
		for _, o := range items {
			vnd.Assume(o.a != x.a)
		}
		vnd.Assert(e.AddTransaction(vTx(x)), "a new transaction was refused")
		items = append(append([]vItem{}, items[1:]...), x)
		vAll(e, &deg, items)
	}
	vnd.Reach("end")
}

// VerifWindow decides P02 for the window.
func VerifWindow() {
	k, wmax := vnd.Param("k"), vnd.Param("ws")
	ws := 1 + vnd.Choose(wmax)
	deg := 1
	cur := &deg
	e := NewEncoder(vSalt, vDist{cur}, ws)
	var win, seen []vItem
	resets := vnd.Param("resets")
	add := func(x vItem) {
		ok := true
		for _, o := range win {
			if vSame(o, x) {
				ok = false
			}
		}
		vnd.Assert(e.AddTransaction(vTx(x)) == ok, "AddTransaction's answer")
		if ok {
			win = append(append([]vItem{}, win...), x)
			for len(win) > ws {
				win = win[1:]
			}
			vnd.Reach("accepted")
		} else {
			vnd.Reach("refused")
		}
		seen = append(seen, x)
	}
	for i := 0; i < k; i++ {
		switch vnd.Choose(3) {
		case 0:
			add(vItem{vnd.U64(), vnd.U64()})
		case 1:
			if len(seen) == 0 {
				vnd.Stop()
			}
			add(seen[vnd.Choose(len(seen))])
		case 2:
			if resets == 0 {
				vnd.Stop()
			}
			resets--
			ws = 1 + vnd.Choose(wmax)
			*cur = 1 << 20 // the old distribution must not be used any more
			cur = new(int)
			e.Reset(vDist{cur}, ws)
			win = nil
			vnd.Reach("reset")
		}
		vAll(e, cur, win)
	}
	if len(win) > 0 {
		*cur = 1
		vnd.Assert(len(e.ProduceCodeword().Members) == 1, "degree drawn from another distribution")
	}
	vnd.Reach("end")
}
