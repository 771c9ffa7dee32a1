package ldpc

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vHostile makes a codeword with any content and any members out of the first n
// names, possibly repeated.
func vHostile(names []uint32, max int) (*Codeword, []int) {
	c := &Codeword{}
	copy(c.Symbol[:], vItem{vnd.U64(), vnd.U64()}.bytes())
	var mem []int
	l := vnd.Choose(max + 1)
	for i := 0; i < l; i++ {
		j := vnd.Choose(len(names))
		mem = append(mem, j)
		c.Members = append(c.Members, names[j])
	}
	return c, mem
}

// VerifHostile decides that no codewords make the decoder fail or return
// something that was not named.
func VerifHostile() {
	n, k, max := vnd.Param("n"), vnd.Param("k"), vnd.Param("members")
	mem := 1 << 20
	if m := vnd.Param("memory"); m >= 0 {
		mem = m
	}
	items := vItems(n)
	names := vNames(items)
	dec := NewDecoder(vSalt, mem)
	named := map[int]bool{}
	for i := 0; i < k; i++ {
		var txs []DecodedTransaction
		switch vnd.Choose(3) {
		case 0:
			c, m := vHostile(names, max)
			for _, j := range m {
				named[j] = true
			}
			var pc *PendingCodeword
			pc, txs = dec.AddCodeword(c)
			if vnd.Param("free") == 1 && vnd.Choose(2) == 1 {
				pc.Free()
			}
			vnd.Reach("hostile")
		case 1:
			txs = dec.AddTransaction(vTx(items[vnd.Choose(n)]))
		case 2:
			mask := 1 + vnd.Choose(1<<uint(n)-1)
			r := &vRun{items: items, names: names}
			for _, j := range vBits(mask) {
				named[j] = true
			}
			_, txs = dec.AddCodeword(r.codeword(vBits(mask)))
		}
		for _, t := range txs {
			ok := false
			x, rest := vContent(t.Serialized())
			for j := range items {
				if named[j] {
					ok = vnd.Or(ok, vSame(x, items[j]))
				}
			}
			vnd.Assert(vnd.And(ok, rest), "decoder returned a transaction that no codeword named")
			vnd.Reach("decoded")
		}
	}
	vnd.Reach("end")
}

// VerifIsolated decides that hostile codewords leave genuine ones alone that
// share no member with them.
func VerifIsolated() {
	n, h, k, max := vnd.Param("n"), vnd.Param("h"), vnd.Param("k"), vnd.Param("members")
	r := vNewRun(n+h, 1<<20)
	bad := r.names[n:]
	r.others = true
	genuine := r.items[:n]
	used := 0
	split := func(txs []DecodedTransaction) (mine []DecodedTransaction) {
		for _, t := range txs {
			x, _ := vContent(t.Serialized())
			for _, g := range genuine {
				if vSame(x, g) {
					mine = append(mine, t)
					break
				}
			}
		}
		return
	}
	for i := 0; i < k; i++ {
		switch vnd.Choose(4) {
		case 0:
			c, _ := vHostile(bad, max)
			_, txs := r.dec.AddCodeword(c)
			vnd.Assert(len(split(txs)) == 0, "a hostile codeword yielded a transaction it did not name")
			vnd.Reach("hostile")
		case 1:
			txs := r.dec.AddTransaction(vTx(r.items[n+vnd.Choose(h)]))
			vnd.Assert(len(split(txs)) == 0, "a hostile transaction yielded a genuine one")
		case 2:
			mask := 1 + vnd.Choose(1<<uint(n)-1)
			vCanon(mask, &used)
			r.addCodeword(vBits(mask))
		case 3:
			x := vnd.Choose(n)
			vCanon(1<<uint(x), &used)
			r.addTransaction(x)
		}
	}
	r.end()
}

// VerifHostileFree looks at codewords that cannot be decoded and are released:
// nothing fails later and nothing is returned that was not named.
func VerifHostileFree() {
	n, k := vnd.Param("n"), vnd.Param("k")
	items := vItems(n)
	names := vNames(items)
	dec := NewDecoder(vSalt, 1<<20)
	r := &vRun{items: items, names: names}
	named := map[int]bool{}
	known := map[int]bool{}
	used := 0
	for i := 0; i < k; i++ {
		var txs []DecodedTransaction
		last := i == k-1
		switch vnd.Choose(3) {
		case 0:
			if last {
				vnd.Stop()
			}
			a, b := vnd.Choose(n), vnd.Choose(n)
			if a > b {
				vnd.Stop()
			}
			vCanon(1<<uint(a)|1<<uint(b), &used)
			c := &Codeword{Members: []uint32{names[a], names[b]}}
			copy(c.Symbol[:], vItem{vnd.U64(), vnd.U64()}.bytes())
			named[a], named[b] = true, true
			var pc *PendingCodeword
			pc, txs = dec.AddCodeword(c)
			if vnd.Choose(2) == 1 {
				pc.Free()
			}
			vnd.Reach("hostile")
		case 1:
			x := vnd.Choose(n)
			vCanon(1<<uint(x), &used)
			known[x] = true
			txs = dec.AddTransaction(vTx(items[x]))
		case 2:
			mask := 1 + vnd.Choose(1<<uint(n)-1)
			if m := vBits(mask); len(m) > 2 {
				vnd.Stop()
			}
			vCanon(mask, &used)
			for _, j := range vBits(mask) {
				named[j] = true
			}
			_, txs = dec.AddCodeword(r.codeword(vBits(mask)))
		}
		for _, t := range txs {
			ok := false
			x, rest := vContent(t.Serialized())
			for j := range items {
				if named[j] && !known[j] {
					ok = vnd.Or(ok, vSame(x, items[j]))
				}
			}
			vnd.Assert(vnd.And(ok, rest), "decoder returned a transaction that no codeword named or that was added")
			vnd.Reach("decoded")
		}
	}
	vnd.Reach("end")
}
