package main

import (
	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

// vPull returns an operation on one end of a link: op(i, kind) with transaction i.
func vPull(n int) func(i, kind int) {
	sa, sb := vServer(), vServer()
	connectPullServers(sa, sb, 9)
	e := vEnd{sa.handlers[sb].algorithm, sb, 9}
	if vnd.Bool() {
		e = vEnd{sb.handlers[sa].algorithm, sa, 9}
	}
	var txs []vTx
	for i := 0; i < n; i++ {
		txs = append(txs, vMake(i, vTs()))
	}
	known := uint64(0)
	var want []any
	flush := func() {
		got := e.drain()
		vnd.Assert(len(got) == len(want), "a message is missing or sent twice")
		for i, m := range got {
			switch x := want[i].(type) {
			case announce:
				y, is := m.(announce)
				vnd.Assert(is && y.hash == x.hash, "not the announcement expected")
			case request:
				y, is := m.(request)
				vnd.Assert(is && y.hash == x.hash, "not the request expected")
				vnd.Reach("request")
			case response:
				y, is := m.(response)
				vnd.Assert(is && y.payload.Hash == x.payload.Hash && y.payload.Symbol == x.payload.Symbol, "not the transaction asked for")
				vnd.Reach("response")
			}
		}
		want = nil
	}
	return func(i, kind int) {
		t, bit := txs[i], uint64(1)<<uint(i)
		switch kind {
		case 0:
			e.alg.forwardTransaction(t)
			want = append(want, announce{t.Hash})
			known |= bit
		case 1:
			got := e.alg.handleMessage(announce{t.Hash})
			vnd.Assert(len(got) == 0, "a transaction from an announcement")
			if known&bit == 0 {
				want = append(want, request{t.Hash})
			}
		case 2:
			if known&bit == 0 {
				vnd.Stop() // nobody asks for what was not announced
			}
			got := e.alg.handleMessage(request{t.Hash})
			vnd.Assert(len(got) == 0, "a transaction from a request")
			want = append(want, response{t})
		case 3:
			got := e.alg.handleMessage(response{t})
			vnd.Assert(len(got) == 1, "a response is not handed over exactly once")
			vnd.Assert(got[0].Hash == t.Hash && got[0].Symbol == t.Symbol, "a response is altered")
			known |= bit
		case 4:
			flush()
		}
	}
}

// VerifPull decides N05 for one end of a link.
func VerifPull() {
	n, k := vnd.Param("n"), vnd.Param("k")
	op := vPull(n)
	for s := 0; s < k; s++ {
		i := vnd.Choose(n)
		op(i, vnd.Choose(5))
	}
	op(0, 4)
	vnd.Reach("end")
}

// VerifPullMany decides N05 for long histories with many transactions: a fixed
// mix of operations except for one transaction, which undergoes any.
func VerifPullMany() {
	n, rounds := vnd.Param("n"), vnd.Param("rounds")
	op := vPull(n)
	free := []int{0, n / 2, n - 1}[vnd.Choose(3)]
	send := []int{1, 5, n, rounds * n}[vnd.Choose(4)]
	mix := vnd.Choose(4)
	known := make([]bool, n)
	c := 0
	for r := 0; r < rounds; r++ {
		for i := 0; i < n; i++ {
			kind := 0
			switch {
			case i == free:
				kind = vnd.Choose(4)
				if kind == 2 && !known[i] {
					vnd.Stop()
				}
			case mix == 3:
				kind = (i*7 + r*3) % 4
			default:
				kind = []int{mix, (mix + 1) % 4, 1, 3}[(r+i/3)%4]
			}
			if kind == 2 && !known[i] {
				kind = 3
			}
			known[i] = known[i] || kind == 0 || kind == 3
			op(i, kind)
			c++
			if c%send == 0 {
				op(0, 4)
			}
		}
	}
	op(0, 4)
	vnd.Reach("end")
}
