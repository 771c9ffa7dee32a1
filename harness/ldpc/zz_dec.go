package ldpc

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type vCw struct {
	open  []int
	freed bool
}

func (c *vCw) has(i int) bool {
	for _, j := range c.open {
		if i == j {
			return true
		}
	}
	return false
}

func (c *vCw) drop(i int) {
	var o []int
	for _, j := range c.open {
		if i != j {
			o = append(o, j)
		}
	}
	c.open = o
}

type vRun struct {
	items   []vItem
	names   []uint32
	dec     *Decoder
	memory  int
	recent  []int
	cws     []*vCw
	pcs     []*PendingCodeword
	given   []DecodedTransaction
	gidx    []int
	learned int
	others  bool // the decoder learns other transactions as well
}

func vNewRun(n, memory int) *vRun {
	items := vItems(n)
	return &vRun{items: items, names: vNames(items), dec: NewDecoder(vSalt, memory), memory: memory}
}

func (r *vRun) known(i int) bool {
	for _, j := range r.recent {
		if i == j {
			return true
		}
	}
	return false
}

func (r *vRun) remember(i int) {
	r.learned++
	r.recent = append(r.recent, i)
	for len(r.recent) > r.memory {
		r.recent = r.recent[1:]
	}
}

// reach returns what peeling yields from the open codewords when transaction
// "not" is never resolved.
func (r *vRun) reach(not int) int {
	out := 0
	for again := true; again; {
		again = false
		for _, c := range r.cws {
			n, last := 0, 0
			for _, i := range c.open {
				if out>>uint(i)&1 == 0 {
					n++
					last = i
				}
			}
			if n == 1 && last != not {
				out |= 1 << uint(last)
				again = true
			}
		}
	}
	return out
}

func (r *vRun) codeword(members []int) *Codeword {
	var x vItem
	c := &Codeword{}
	for _, i := range members {
		x.a ^= r.items[i].a
		x.z ^= r.items[i].z
		c.Members = append(c.Members, r.names[i])
	}
	copy(c.Symbol[:], x.bytes())
	return c
}

func (r *vRun) check(txs []DecodedTransaction) {
	want := r.reach(-1)
	got := 0
	for _, t := range txs {
		x, rest := vContent(t.Serialized())
		hit := -1
		for i, o := range r.items {
			if x.a == o.a {
				hit = i
			}
		}
		vnd.Assert(hit >= 0, "decoder returned something that is no genuine transaction")
		vnd.Assert(vnd.And(vSame(x, r.items[hit]), rest), "returned transaction is not intact")
		vnd.Assert(vSameTx(t.Transaction, r.items[hit]), "returned transaction has a wrong identity")
		vnd.Assert(got>>uint(hit)&1 == 0, "transaction returned twice")
		vnd.Assert(want>>uint(hit)&1 == 1, "decoder returned a transaction that is known or not decodable")
		got |= 1 << uint(hit)
		// which codewords can it have been resolved from?
		k := r.reach(hit)
		late, live := false, false
		for _, c := range r.cws {
			if !c.has(hit) {
				continue
			}
			alone := true
			for _, i := range c.open {
				alone = alone && (i == hit || k>>uint(i)&1 == 1)
			}
			if alone && c.freed {
				late = true
			}
			if alone && !c.freed {
				live = true
			}
		}
		if t.Expired {
			vnd.Assert(late, "transaction marked expired without a released codeword to resolve it from")
			vnd.Reach("expired")
		} else {
			vnd.Assert(live, "transaction resolved from a released codeword is not marked expired")
			vnd.Reach("decoded")
		}
		r.given = append(r.given, t)
		r.gidx = append(r.gidx, hit)
		r.remember(hit)
	}
	vnd.Assert(r.others || r.dec.NumTransactionsReceived() == r.learned, "count of transactions received")
	vnd.Assert(got == want, "decoder did not return everything peeling can resolve")
	for _, c := range r.cws {
		for i := range r.items {
			if want>>uint(i)&1 == 1 {
				c.drop(i)
			}
		}
	}
	for i, c := range r.cws {
		if !c.freed {
			vnd.Assert(r.pcs[i].Decoded() == (len(c.open) == 0), "codeword's report differs from all its members being known")
		}
	}
}

func vSameTx(t *Transaction, x vItem) bool {
	one := 1
	e := NewEncoder(vSalt, vDist{&one}, 4)
	e.AddTransaction(t)
	return !e.AddTransaction(vTx(x))
}

func (r *vRun) addCodeword(members []int) {
	c := &vCw{}
	for _, i := range members {
		if !r.known(i) {
			c.open = append(c.open, i)
		}
	}
	r.cws = append(r.cws, c)
	pc, txs := r.dec.AddCodeword(r.codeword(members))
	r.pcs = append(r.pcs, pc)
	r.check(txs)
}

func (r *vRun) addTransaction(i int) {
	if !r.known(i) {
		r.remember(i)
		for _, c := range r.cws {
			c.drop(i)
		}
	}
	r.check(r.dec.AddTransaction(vTx(r.items[i])))
}

func (r *vRun) end() {
	for i, t := range r.given {
		x, rest := vContent(t.Serialized())
		vnd.Assert(vnd.And(vSame(x, r.items[r.gidx[i]]), rest), "transaction handed out earlier changed")
	}
	vnd.Reach("end")
}

func vBits(mask int) (out []int) {
	for i := 0; i < 16; i++ {
		if mask>>uint(i)&1 == 1 {
			out = append(out, i)
		}
	}
	return
}

// vCanon takes interchangeable transactions in order.
func vCanon(mask int, used *int) {
	if vnd.Symbolic() {
		m := mask >> uint(*used)
		if m&(m+1) != 0 {
			vnd.Stop()
		}
	}
	for mask>>uint(*used) != 0 {
		*used++
	}
}

// VerifDecode decides P03.
func VerifDecode() {
	n, k := vnd.Param("n"), vnd.Param("k")
	mem := 1 << 20
	if m := vnd.Param("memory"); m > 0 {
		mem = m
	} else if m < 0 {
		mem = 0
	}
	r := vNewRun(n, mem)
	used := 0
	for i := 0; i < k; i++ {
		live := []int{}
		for j, c := range r.cws {
			if !c.freed {
				live = append(live, j)
			}
		}
		ops := 2
		if len(live) > 0 {
			ops = 3
		}
		switch vnd.Choose(ops) {
		case 0:
			mask := 1 + vnd.Choose(1<<uint(n)-1)
			vCanon(mask, &used)
			r.addCodeword(vBits(mask))
		case 1:
			x := vnd.Choose(n)
			vCanon(1<<uint(x), &used)
			r.addTransaction(x)
		case 2:
			j := live[vnd.Choose(len(live))]
			r.cws[j].freed = true
			r.pcs[j].Free()
			r.pcs[j] = nil
		}
	}
	r.end()
}

// VerifWide decides P03 on longer fixed pseudo-random runs with one arbitrary
// codeword and one release at any time.
func VerifWide() {
	n, k := vnd.Param("n"), vnd.Param("k")
	r := vNewRun(n, vnd.Param("memory"))
	seed := uint64(vnd.Choose(vnd.Param("seeds")))*77 + 5
	rnd := func(m int) int {
		seed = seed*6364136223846793005 + 1442695040888963407
		return int(seed>>33) % m
	}
	at := vnd.Choose(k)
	for i := 0; i < k; i++ {
		if i == at {
			base := vnd.Choose(n - 2)
			r.addCodeword(vBits((1 + vnd.Choose(7)) << uint(base)))
			if vnd.Choose(2) == 1 {
				r.cws[len(r.cws)-1].freed = true
				r.pcs[len(r.cws)-1].Free()
				r.pcs[len(r.cws)-1] = nil
			}
			continue
		}
		switch rnd(6) {
		case 0:
			r.addTransaction(rnd(n))
		case 1, 2:
			if len(r.cws) > 0 {
				if j := rnd(len(r.cws)); !r.cws[j].freed {
					r.cws[j].freed = true
					r.pcs[j].Free()
					r.pcs[j] = nil
				}
			}
		default:
			mask := 0
			for j := 0; j < 2+rnd(3); j++ {
				mask |= 1 << uint(rnd(n))
			}
			r.addCodeword(vBits(mask))
		}
	}
	r.end()
}
