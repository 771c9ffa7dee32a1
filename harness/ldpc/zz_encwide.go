package ldpc

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vNamed struct {
	vItem
	name uint32
}

// VerifWindowWide decides P02 for larger windows: a fixed pseudo-random run of
// additions, repetitions and resets with one arbitrary step, then a codeword
// that leaves out a few.
func VerifWindowWide() {
	n, k := vnd.Param("n"), vnd.Param("k")
	ws := n
	deg := 1
	cur := &deg
	e := NewEncoder(vSalt, vDist{cur}, ws)
	var win, seen []vNamed
	seed := uint64(vnd.Choose(vnd.Param("seeds")))*77 + 5
	rnd := func(m int) int {
		seed = seed*6364136223846793005 + 1442695040888963407
		return int(seed>>33) % m
	}
	add := func(x vNamed) {
		ok := true
		for _, o := range win {
			if o.a == x.a {
				ok = false
			}
		}
		vnd.Assert(e.AddTransaction(vTx(x.vItem)) == ok, "AddTransaction's answer")
		if ok {
			win = append(append([]vNamed{}, win...), x)
			for len(win) > ws {
				win = win[1:]
			}
		}
		seen = append(seen, x)
	}
	reset := func(size int) {
		ws = size
		cur = new(int)
		e.Reset(vDist{cur}, ws)
		win = nil
	}
	at := vnd.Choose(k)
	for i := 0; i < k; i++ {
		if i == at {
			if c := vnd.Choose(3); c == 0 {
				reset([]int{n / 2, n, 2 * n}[vnd.Choose(3)])
			} else if len(seen) > 0 {
				j := len(seen) - []int{1, 2, ws - 1, ws, ws + 1, 2 * ws}[vnd.Choose(6)]
				if j < 0 || j >= len(seen) {
					j = 0
				}
				add(seen[j])
			}
		} else if r := rnd(12); r < 3 && len(seen) > 0 {
			add(seen[rnd(len(seen))])
		} else if r == 3 && rnd(8) == 0 {
			reset(1 + rnd(2*n))
		} else {
			x := vItem{uint64(i)<<20 + uint64(rnd(1000)), uint64(i)}
			add(vNamed{x, vName(x)})
		}
		if i%10 == 0 || i == k-1 {
			vAllWide(e, cur, win)
		}
	}
	out := 0
	if at%2 == 0 {
		out = 1
	}
	if out < len(win) {
		*cur = len(win) - out
		vIsWide(e.ProduceCodeword(), win, *cur, "codeword")
		vAllWide(e, cur, win)
	}
	vnd.Reach("end")
}

func vAllWide(e *Encoder, deg *int, want []vNamed) {
	*deg = len(want) + 2
	vIsWide(e.ProduceCodeword(), want, len(want), "codeword of the whole window")
}

// vIsWide is vIs for any number of transactions.
func vIsWide(c *Codeword, items []vNamed, n int, what string) {
	vnd.Assert(c != nil, what+": no codeword")
	vnd.Assert(len(c.Members) == n, what+": number of transactions named")
	var sum vItem
	seen := make([]bool, len(items))
	for _, m := range c.Members {
		hit := -1
		for j, x := range items {
			if m == x.name {
				hit = j
			}
		}
		vnd.Assert(hit >= 0, what+": names something outside the window")
		vnd.Assert(!seen[hit], what+": names a transaction twice")
		seen[hit] = true
		sum.a ^= items[hit].a
		sum.z ^= items[hit].z
	}
	got, rest := vContent(c.Symbol[:])
	vnd.Assert(vnd.And(vSame(got, sum), rest), what+": content is not the XOR of the transactions named")
}
